M="pkg/module/module.go"
G="""		if nameIsLegal(name) {
			return nil, fmt.Errorf("name %s is illigal", name)
		}

"""
G1="""	if nameIsLegal(name) {
		return nil, fmt.Errorf("name %s is illigal", name)
	}
	var"""
MUT=[
 ("no guard",[(M,G1,"	var")]),
 ("no backslash",[(M,"""strings.Contains(name, "/") ||
		strings.Contains(name, "\\\\") {""","""strings.Contains(name, "/") {""")]),
 ("no slash",[(M,"""strings.Contains(name, "/") ||
		strings""","strings")]),
 ("prefix only",[(M,"""strings.Contains(name, "/") ||""","""strings.HasPrefix(name, "/") ||""")]),
 ("dotdot",[(M,"""name == ".." ||
		name == "." {""","""name == "." {""")]),
 ("dot",[(M,"""name == ".." ||
		name == "." {""","""name == ".." {""")]),
 ("and",[(M,"""strings.Contains(name, "/") ||
""","""strings.Contains(name, "/") &&
""")]),
 ("too strict",[(M,"""if name == ".." ||""","""if strings.HasPrefix(name, "..") ||""")]),
 ("too strict dot",[(M,"""name == "." {""","""strings.Contains(name, ".") {""")]),
 ("reverse",[(M,"for _, path := range mr.Paths {","for i := range mr.Paths {\n\t\tpath := mr.Paths[len(mr.Paths)-1-i]")]),
 ("from second",[(M,"for _, path := range mr.Paths {","for i := 1; i < len(mr.Paths); i++ {\n\t\tpath := mr.Paths[i]")]),
 ("prepend",[(M,"""		modulePaths = append(modulePaths, &struct {
			Path string
			Kind string
		}{Path: modulePath, Kind: spec.Kind})""","""		modulePaths = append([]*struct {
			Path string
			Kind string
		}{{Path: modulePath, Kind: spec.Kind}}, modulePaths...)""")]),
 ("stop on error",[(M,"""			log.Printf("%v trying next path", err)
			continue""","""			return modulePaths, err""")]),
 ("unknown kind",[(M,"""couldn't find kind %s.. trying next path", modulePath, kind)
			continue""","""couldn't find kind %s.. trying next path", modulePath, kind)""")]),
 ("stop load",[(M,"""				log.Printf("error during loading %s, %s, %s", name, info.Path, info.Kind)
				continue""","""				return nil, err""")]),
 ("first info",[(M,"info.Kind, info.Path, specFilename)","info.Kind, infos[0].Path, specFilename)")]),
 ("first kind",[(M,"info.Kind, info.Path, specFilename)","infos[0].Kind, info.Path, specFilename)")]),
 ("spec fixed",[(M,"info.Kind, info.Path, specFilename)","info.Kind, info.Path, SpecFilename)")]),
 ("last wins",[(M,"			return instance, nil\n		}","			if info == infos[len(infos)-1] {\n				return instance, nil\n			}\n		}")]),
 ("path of module",[(M,"}{Path: modulePath, Kind: spec.Kind})","}{Path: path, Kind: spec.Kind})")]),
 ("dir lost",[(M,"path := filepath.FromSlash(filepath.Dir(filepath.ToSlash(specFilename)))","path := \".\"")]),
 ("base lost",[(M,"		specFilename = filepath.FromSlash(filepath.Base(filepath.ToSlash(specFilename)))\n","")]),
 ("unknown kind use",[(M,"""	if !ok {
		return nil, fmt.Errorf("couldn't find kind %s", kind)
	}
""","""	if !ok {
		log.Printf("couldn't find kind %s", kind)
	}
""")]),
 ("header first path",[(M,"""moduleYamlPath := filepath.FromSlash(filepath.ToSlash(modulePath) + "/" + SpecFilename)""","""moduleYamlPath := filepath.FromSlash(filepath.ToSlash(mr.Paths[0]) + "/" + name + "/" + SpecFilename)""")]),
 ("nil nil",[(M,"""			return nil, fmt.Errorf("wasn't able to find module %s", name)""","""			return nil, nil""")]),
]
REF=[
 ("any",[(M,"""strings.Contains(name, "/") ||
		strings.Contains(name, "\\\\") {""","""strings.ContainsAny(name, "/\\\\") {""")]),
 ("switch",[(M,"""	if name == ".." ||
		name == "." {
		return true
	}

	return false""","""	switch name {
	case ".", "..":
		return true
	}
	return false""")]),
 ("index",[(M,"""strings.Contains(name, "/") ||""","""strings.Index(name, "/") >= 0 ||""")]),
 ("index byte",[(M,"""strings.Contains(name, "/") ||""","""strings.IndexByte(name, '/') != -1 ||""")]),
 ("renamed inverted",[(M,"func nameIsLegal(name string) bool {","func nameIsIllegal(name string) bool {"),(M,G1,"	if nameIsIllegal(name) {\n		return nil, fmt.Errorf(\"name %s is illegal\", name)\n	}\n	var"),(M,G,G.replace("nameIsLegal","nameIsIllegal"))]),
 ("guard once",[(M,G,"")]),
 ("join",[(M,"""modulePath := filepath.FromSlash(filepath.ToSlash(path) + "/" + name)""","""modulePath := filepath.Join(path, name)"""),(M,"""moduleYamlPath := filepath.FromSlash(filepath.ToSlash(modulePath) + "/" + SpecFilename)""","""moduleYamlPath := filepath.Join(modulePath, SpecFilename)""")]),
 ("index loop",[(M,"for _, path := range mr.Paths {","for i := 0; i < len(mr.Paths); i++ {\n\t\tpath := mr.Paths[i]")]),
 ("helper",[(M,"func (mr *Runner) InfoByName","func modulePathIn(root, name string) string {\n	return filepath.FromSlash(filepath.ToSlash(root) + \"/\" + name)\n}\n\nfunc (mr *Runner) InfoByName"),(M,"""modulePath := filepath.FromSlash(filepath.ToSlash(path) + "/" + name)""","modulePath := modulePathIn(path, name)")]),
 ("split",[(M,"""func (mr *Runner) InfoByName(name string) ([]*struct {
	Path string
	Kind string
}, error) {
	if nameIsLegal(name) {
		return nil, fmt.Errorf("name %s is illigal", name)
	}
""","""func (mr *Runner) InfoByName(name string) ([]*struct {
	Path string
	Kind string
}, error) {
	if nameIsLegal(name) {
		return nil, fmt.Errorf("name %s is illigal", name)
	}
	return mr.lookup(name)
}

func (mr *Runner) lookup(name string) ([]*struct {
	Path string
	Kind string
}, error) {
""")]),
 ("err first",[(M,"""			instance, err := mr.newInstanceByFullInfo(info.Kind, info.Path, specFilename)
			if err != nil {
				log.Printf("error during loading %s, %s, %s", name, info.Path, info.Kind)
				continue
			}
			return instance, nil""","""			instance, err := mr.newInstanceByFullInfo(info.Kind, info.Path, specFilename)
			if err == nil {
				return instance, nil
			}
			log.Printf("error during loading %s, %s, %s", name, info.Path, info.Kind)""")]),
 ("prealloc",[(M,"""	var modulePaths []*struct {
		Path string
		Kind string
	}
""","""	modulePaths := make([]*struct {
		Path string
		Kind string
	}, 0, len(mr.Paths))
""")]),
 ("runes",[(M,"""	if strings.Contains(name, "/") ||
		strings.Contains(name, "\\\\") {
		return true
	}
""","""	for _, c := range name {
		if c == '/' || c == '\\\\' || strings.Contains(name, "/") {
			return true
		}
	}
""")]),
]
