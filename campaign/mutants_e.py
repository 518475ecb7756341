B="pkg/python/pypa/bdist/binary_distribution_format.go"; H="pkg/python/pypa/bdist/hack.go"; RL="pkg/squash/readlayer.go"; VF="pkg/squash/vfs.go"; FS="pkg/squash/vfs_fs.go"; FR="pkg/fsutil/fileref.go"; DI="pkg/dir/dir.go"
RI="pkg/python/pypa/recording_installs/recording_installs.go"; RP="pkg/python/pep503/simple_repo_api.go"; PC="pkg/python/py_compile.go"; CP="pkg/python/configparser.go"; SR="pkg/python/pypa/simple_repo_api/pypa_repo_api.go"; IO="pkg/python/pypa/bdist/ioutil.go"
S2="pkg/python/pep440/02_version_specifiers.go"
M=[
("me-readcap","L01",RL,"body, err = io.ReadAll(tarReader)","body = make([]byte, 32<<10)\n			var n int\n			n, err = io.ReadFull(tarReader, body)\n			body = body[:n]\n			if err == io.EOF || err == io.ErrUnexpectedEOF {\n				err = nil\n			}"),
("me-readonce","L01",RL,"body, err = io.ReadAll(tarReader)","body = make([]byte, header.Size)\n			if header.Size > 0 {\n				var n int\n				n, err = tarReader.Read(body)\n				body = body[:n]\n				if err == io.EOF {\n					err = nil\n				}\n			}"),
("me-viewcap","L04",FS,"n := copy(buf, f.tgt.body[f.pos:])\n	f.pos += n","n := copy(buf, f.tgt.body[f.pos:])\n	f.pos += n &^ (1 << 15)"),
("me-hashcap","W02",B,"size, err = io.Copy(dst, reader)","size, err = io.Copy(dst, io.LimitReader(reader, 1<<15))\n		if err == nil {\n			var rest int64\n			rest, err = io.Copy(io.Discard, reader)\n			size += rest\n		}"),
("me-getcap","R01",RP,"content, err := io.ReadAll(resp.Body)","content, err := io.ReadAll(io.LimitReader(resp.Body, 32<<10))"),
("me-hack","W06",H,"size, err := io.Copy(hasher, reader)","size, err := io.CopyN(hasher, reader, 1<<14)\n	if err == io.EOF {\n		err = nil\n	}"),
("me-rechash","W04",RI,"if _, err := io.Copy(hasher, reader); err != nil {","if _, err := io.CopyN(hasher, reader, 1<<15); err != nil && err != io.EOF {"),
("me-skip","W08",IO,"r.skip -= n","r.skip -= n\n		if len(buf) > 16384 {\n			buf = buf[:16384:16384]\n			_ = append(buf[:0:0], 0)\n			n2, err2 := io.ReadFull(r.inner, buf)\n			if err2 == io.ErrUnexpectedEOF {\n				err2 = nil\n			}\n			return n2 - n2/16384, err2\n		}"),
("me-compile","W12",PC,"if _, err := io.Copy(outWriter, inReader); err != nil {","if _, err := io.CopyN(outWriter, inReader, 1<<15); err != nil && err.Error() != \"EOF\" {"),
("me-todo","W02",B,"	if len(todo) > 0 {\n		todoNames","	if len(todo) > 0 && len(todo) < 8 {\n		todoNames"),
("me-errs","W02",B,"	if len(errs) > 0 {\n		return errs\n	}\n\n	return nil\n}\n","	if len(errs) > 0 && len(errs) < 64 {\n		return errs\n	}\n\n	return nil\n}\n") ,
("me-selcap","V05",S2,"","") ,
("me-links","R03",SR,"	if len(links) == 0 {\n		links = yankedLinks","	if len(links) > 8 {\n		links = links[len(links)-8:]\n	}\n	if len(links) == 0 {\n		links = yankedLinks"),
("me-cfgcont","W09",CP,"curIndentLevel = lineIndentLevel\n			if curSection == nil {","if curIndentLevel > lineIndentLevel || curVal == nil {\n				curIndentLevel = lineIndentLevel\n			}\n			if curSection == nil {"),
("me-cfgsect","W09",CP,"			flushKV()\n			curIndentLevel = lineIndentLevel\n			sectName","			flushKV()\n			sectName"),
("me-loop","L04",VF,"","") ,
]
M=[m for m in M if m[3]!=""]
