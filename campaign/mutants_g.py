R='pkg/python/pep503/simple_repo_api.go'; PC='pkg/python/py_compile.go'; PY='pkg/python/pyinspect/pyinspect.go'; G='pkg/gobuild/gobuild.go'; MI='pkg/python/pypa/bdist/misc.go'; B='pkg/python/pypa/bdist/binary_distribution_format.go'; A='pkg/python/pypa/simple_repo_api/pypa_repo_api.go'
M=[
("mg-bgreq","F03",R,"http.NewRequestWithContext(ctx, http.MethodGet, requestURL, nil)","http.NewRequest(http.MethodGet, requestURL, nil)"),
("mg-bghook","F03",R,"c.HTMLHook(ctx, doc)","c.HTMLHook(context.Background(), doc)"),
("mg-sigbg","F03",R,"	_, content, err := l.client.get(ctx, l.HRef)","	_, content, err := l.client.get(context.Background(), l.HRef)"),
("mg-compbg","F03",PC,"dexec.CommandContext(ctx, exe,","dexec.CommandContext(context.Background(), exe,"),
("mg-dynbg","F03",PY,"dexec.CommandContext(ctx, cmdline[0]","dexec.CommandContext(context.Background(), cmdline[0]"),
("mg-gobg","F03",G,"dexec.CommandContext(ctx, args[0]","dexec.CommandContext(context.Background(), args[0]"),
("mg-hookbg","F03",MI,"hook(ctx, clampTime, vfs, installedDistInfoDir)","hook(context.Background(), clampTime, vfs, installedDistInfoDir)"),
("mg-hookctx","F03",MI,"			if err := hook(ctx, clampTime, vfs, installedDistInfoDir); err != nil {","			if err := hook(ctx, clampTime, vfs, installedDistInfoDir); err != nil && ctx.Err() == nil {"),
("mg-pybg","F03",B,"plat.PyCompile(ctx, maxTime","plat.PyCompile(context.TODO(), maxTime"),
("mg-selbg","F03",A,"c.ListPackageFiles(ctx, pkgname)","c.ListPackageFiles(context.Background(), pkgname)"),
]
