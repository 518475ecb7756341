package nd

// What package reflect offers, for models of packages that use it; these exist
// under the symbolic executor only.

func SymRKind(v interface{}) int                                            { panic("not native") }
func SymRElemKind(v interface{}) int                                        { panic("not native") }
func SymRType(v interface{}) string                                         { panic("not native") }
func SymRIsNil(v interface{}) bool                                          { panic("not native") }
func SymRNum(v interface{}) int                                             { panic("not native") }
func SymRFieldInfo(v interface{}, i int) (name, tag string, anon, exp bool) { panic("not native") }
func SymRField(v interface{}, i int) interface{}                            { panic("not native") }
func SymRIndex(v interface{}, i int) interface{}                            { panic("not native") }
func SymRDeref(v interface{}) interface{}                                   { panic("not native") }
func SymRNew(v interface{}) interface{}                                     { panic("not native") }
func SymRZero(v interface{})                                                { panic("not native") }
func SymRGrow(v interface{}) interface{}                                    { panic("not native") }
func SymREmpty(v interface{})                                               { panic("not native") }
func SymRElem(v interface{}) interface{}                                    { panic("not native") }
func SymRMapSet(v interface{}, k string, e interface{})                     { panic("not native") }
func SymRMapAt(v interface{}, i int) (key, val interface{})                 { panic("not native") }
func SymRSet(p interface{}, v interface{})                                  { panic("not native") }
func SymRStr(v interface{}) string                                          { panic("not native") }
func SymRInt(v interface{}) int64                                           { panic("not native") }
func SymRBool(v interface{}) bool                                           { panic("not native") }
func SymRBytes(v interface{}) []byte                                        { panic("not native") }
func SymRFloat(v interface{}) float64                                       { panic("not native") }
