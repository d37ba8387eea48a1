W="pkg/dwarfy/dwarf.go"
MUT=[
 ("parent zero",[(W,"	if e.Parent != nil {","	if e.Parent != nil && *e.Parent != 0 {")]),
 ("fields one",[(W,"	if len(e.Fields) > 0 {","	if len(e.Fields) > 1 {")]),
 ("children hex",[(W,"""	return fmt.Sprintf("%d", o)""","""	return fmt.Sprintf("%x", o)""")]),
 ("parent int16",[(W,"""fmt.Sprintf("%d", uint32(*e.Parent))""","""fmt.Sprintf("%d", uint16(*e.Parent))""")]),
 ("key case",[(W,"""u["DeclFiles"] = iDeclFiles""","""u["Declfiles"] = iDeclFiles""")]),
 ("decl swap",[(W,"""u["Children"] = iChildren""","""u["DeclFiles"] = iChildren"""),(W,"""u["DeclFiles"] = iDeclFiles""","""u["Children"] = iDeclFiles""")]),
 ("tag lost",[(W,"	entry.Tag = Tag(cTag)\n","	_ = cTag\n")]),
 ("class attr",[(W,"	field.Class = Class(cClass)","	field.Class = Class(cAttr)")]),
 ("field skip",[(W,"			entry.Fields = append(entry.Fields, field)\n		}\n	}\n	// Children","			if field.Val != nil {\n				entry.Fields = append(entry.Fields, field)\n			}\n		}\n	}\n	// Children")]),
 ("child err",[(W,"""				return nil, fmt.Errorf("couldn't cast Child %v to offset: %v", iChild, err)""","""				continue""")]),
 ("declfile empty",[(W,"			iDeclFiles = append(iDeclFiles, interface{}(declFile))","			if declFile != \"\" {\n				iDeclFiles = append(iDeclFiles, interface{}(declFile))\n			}")]),
 ("declfile nil",[(W,"""				declFiles = append(declFiles, "")
				continue""","""				continue""")]),
 ("first file",[(W,"		for _, f := range lreader.Files() {","		for _, f := range lreader.Files()[1:] {")]),
 ("entry err",[(W,"""			return nil, fmt.Errorf("couldn't convert entry from %v: %v", iV, err)""","""			delete(data.Entries, Offset(intOffset))""")]),
 ("offset int32",[(W,"	return Offset(intU), nil","	return Offset(int32(intU)), nil")]),
 ("offset parse",[(W,"	intU, err := strconv.Atoi(cU)","	intU, err := strconv.ParseInt(cU, 10, 32)")]),
 ("addr int64",[(W,"			f.Val = uint64(f.Val.(float64))","			f.Val = int64(f.Val.(float64))")]),
 ("ref int",[(W,"			f.Val = Offset(f.Val.(int))","			f.Val = f.Val.(int)")]),
 ("ref dwarf",[(W,"		case dwarf.Offset:\n			f.Val = Offset(f.Val.(dwarf.Offset))\n","")]),
 ("const cut",[(W,"			f.Val = int64(f.Val.(int))","			f.Val = int64(int32(f.Val.(int)))")]),
 ("no rangelist",[(W,"""	case "ClassRangeListPtr":
		fallthrough
""","")]),
 ("unknown",[(W,"""	case "ClassUnknown":
		switch""","""	case "ClassUnkown":
		switch""")]),
 ("fallthrough lost",[(W,"""	case "ClassAddress":
		fallthrough
""","""	case "ClassAddress":
""")]),
 ("expr bytes",[(W,"				r = append(r, int(bVal))","				r = append(r, int(int8(bVal)))")]),
 ("float block",[(W,"""				case float64:
					r = append(r, int(val))
				}""","""				}""")]),
 ("string changed",[(W,"""	case "ClassExprLoc":
		fallthrough
""","""	case "ClassString":
		fallthrough
	case "ClassExprLoc":
		fallthrough
""")]),
 ("no fix field",[(W,"""		field.Val = iVal
	}

	field.fixValBasedOnClass()
""","""		field.Val = iVal
	}

""")]),
 ("no fix json",[(W,"""	err := json.Unmarshal(buf, &data)
	if err != nil {
		return nil, err
	}
	data.fixValBasedOnClass()
""","""	err := json.Unmarshal(buf, &data)
	if err != nil {
		return nil, err
	}
""")]),
 ("fix entry first",[(W,"""	for _, f := range e.Fields {
		f.fixValBasedOnClass()
	}""","""	for _, f := range e.Fields {
		if f.Class != "ClassReference" {
			f.fixValBasedOnClass()
		}
	}""")]),
 ("tag names",[(W,"""`json:"declFiles,omitempty" yaml:"declFiles,omitempty"`""","""`json:"declFiles,omitempty" yaml:"decl_files,omitempty"`""")]),
 ("tag dup",[(W,"""`json:"kind,omitempty" yaml:"kind,omitempty"`""","""`json:"fields,omitempty" yaml:"fields,omitempty"`""")]),
 ("tag out",[(W,"""`json:"class,omitempty" yaml:"class,omitempty"`""","""`json:"-" yaml:"-"`""")]),
 ("ref kept",[(W,"""		val = fmt.Sprintf("%d", offset)""","""		val = int(offset)""")]),
 ("cu only",[(W,"if dwarfEntry.Tag == dwarf.TagCompileUnit {","if dwarfEntry.Tag == dwarf.TagPartialUnit {")]),
 ("newfield class",[(W,"""	field.fixValBasedOnClass()

	return &field, nil
}

func NewFieldF""","""	return &field, nil
}

func NewFieldF""")]),
 ("entry key",[(W,"""	for k, entry := range data.Entries {
		uEntries[fmt.Sprintf("%d", k)] = entry""","""	for _, entry := range data.Entries {
		uEntries[fmt.Sprintf("%d", len(uEntries))] = entry""")]),
 ("val nil",[(W,"""	return map[string]interface{}{
		"Attr":  string(f.Attr),
		"Val":   val,
		"Class": string(f.Class),
	}""","""	u := map[string]interface{}{
		"Attr":  string(f.Attr),
		"Class": string(f.Class),
	}
	if val != nil {
		u["Val"] = val
	}
	return u""")]),
]
REF=[
 ("helper",[(W,"func (e *Entry) ToUnstructured() interface{} {","func offsetText(o Offset) string {\n	return strconv.FormatUint(uint64(o), 10)\n}\n\nfunc (e *Entry) ToUnstructured() interface{} {"),(W,"""u["Parent"] = fmt.Sprintf("%d", uint32(*e.Parent))""","""u["Parent"] = offsetText(*e.Parent)""")]),
 ("case list",[(W,"""	case "ClassAddress":
		fallthrough
	case "ClassReferenceSig":
""","""	case "ClassAddress", "ClassReferenceSig":
""")]),
 ("typed switch",[(W,"""		switch f.Val.(type) {
		case float64:
			f.Val = uint64(f.Val.(float64))
		case int:
			f.Val = uint64(f.Val.(int))
		}""","""		switch v := f.Val.(type) {
		case int:
			f.Val = uint64(v)
		case float64:
			f.Val = uint64(v)
		}""")]),
 ("parent via",[(W,"""		cParent, ok := iParent.(string)
		if !ok {
			return nil, fmt.Errorf("couldn't cast Parent %v to string", iParent)
		}
		intParent, err := strconv.Atoi(cParent)
		if err != nil {
			return nil, fmt.Errorf("couldn't cast Parent %s to Offset", cParent)
		}
		parent := Offset(intParent)
		entry.Parent = &parent
""","""		parent, err := NewOffsetFromUnstructured(iParent)
		if err != nil {
			return nil, err
		}
		entry.Parent = &parent
""")]),
 ("parent to",[(W,"""u["Parent"] = fmt.Sprintf("%d", uint32(*e.Parent))""","""u["Parent"] = e.Parent.ToUnstructured()""")]),
 ("make",[(W,"		var iFields []interface{}\n","		iFields := make([]interface{}, 0, len(e.Fields))\n")]),
 ("index loop",[(W,"""		for _, child := range e.Children {
			iChildren = append(iChildren, child.ToUnstructured())
		}""","""		for i := 0; i < len(e.Children); i++ {
			iChildren = append(iChildren, e.Children[i].ToUnstructured())
		}""")]),
 ("not empty",[(W,"	if len(e.Fields) > 0 {","	if len(e.Fields) != 0 {")]),
 ("ne nil",[(W,"	if len(e.Children) > 0 {","	if e.Children != nil {")]),
 ("parse uint",[(W,"	intU, err := strconv.Atoi(cU)","	intU, err := strconv.ParseUint(cU, 10, 32)")]),
 ("map helper",[(W,"""func NewFieldFromUnstructured(iu interface{}) (*Field, error) {
	var m *map[string]interface{}

	switch u := iu.(type) {
	case *map[string]interface{}:
		m = u
	case map[string]interface{}:
		m = &u
	default:
		return nil, fmt.Errorf("couldn't cast %v to map", u)
	}
""","""func asMap(iu interface{}) (*map[string]interface{}, error) {
	switch u := iu.(type) {
	case *map[string]interface{}:
		return u, nil
	case map[string]interface{}:
		return &u, nil
	default:
		return nil, fmt.Errorf("couldn't cast %v to map", u)
	}
}

func NewFieldFromUnstructured(iu interface{}) (*Field, error) {
	m, err := asMap(iu)
	if err != nil {
		return nil, err
	}
""")]),
 ("string helper",[(W,"""	cAttr, ok := iAttr.(string)
	if !ok {
		return nil, fmt.Errorf("couldn't cast %v to string", cAttr)
	}
	field.Attr = Attr(cAttr)
""","""	cAttr, err := asString(iAttr)
	if err != nil {
		return nil, err
	}
	field.Attr = Attr(cAttr)
"""),(W,"func NewFieldFromUnstructured(","func asString(i interface{}) (string, error) {\n	s, ok := i.(string)\n	if !ok {\n		return \"\", fmt.Errorf(\"couldn't cast %v to string\", i)\n	}\n	return s, nil\n}\n\nfunc NewFieldFromUnstructured(")]),
 ("literal later",[(W,"""	return map[string]interface{}{
		"Attr":  string(f.Attr),
		"Val":   val,
		"Class": string(f.Class),
	}""","""	u := make(map[string]interface{}, 3)
	u["Class"] = string(f.Class)
	u["Attr"] = string(f.Attr)
	u["Val"] = val
	return u""")]),
 ("entries tmp",[(W,"""		data.Entries[Offset(intOffset)], err = NewEntryFromUnstructured(iV)
		if err != nil {
			return nil, fmt.Errorf("couldn't convert entry from %v: %v", iV, err)
		}
""","""		entry, err := NewEntryFromUnstructured(iV)
		if err != nil {
			return nil, fmt.Errorf("couldn't convert entry from %v: %v", iV, err)
		}
		data.Entries[Offset(intOffset)] = entry
""")]),
 ("fix once",[(W,"""		entry.DeclFiles = &declFiles
	}

	entry.fixValBasedOnClass()
	return &entry, nil""","""		entry.DeclFiles = &declFiles
	}

	return &entry, nil""")]),
 ("block helper",[(W,"""			bVals := f.Val.([]byte)
			var r []int
			for _, bVal := range bVals {
				r = append(r, int(bVal))
			}
			f.Val = r
""","""			f.Val = ints(f.Val.([]byte))
"""),(W,"func (f *Field) fixValBasedOnClass() {","func ints(b []byte) []int {\n	var r []int\n	for _, x := range b {\n		r = append(r, int(x))\n	}\n	return r\n}\n\nfunc (f *Field) fixValBasedOnClass() {")]),
 ("early",[(W,"""	if field.Class == "ClassReference" {
		offset, err := NewOffsetFromUnstructured(iVal)
		if err != nil {
			return nil, fmt.Errorf("couldn't convert %v to offset", iVal)
		}
		field.Val = offset
	} else {
		field.Val = iVal
	}
""","""	field.Val = iVal
	if field.Class == "ClassReference" {
		offset, err := NewOffsetFromUnstructured(iVal)
		if err != nil {
			return nil, fmt.Errorf("couldn't convert %v to offset", iVal)
		}
		field.Val = offset
	}
""")]),
 ("newfield set",[(W,"""	field := Field{
		Attr:  Attr(dwarfField.Attr.String()),
		Val:   dwarfField.Val,
		Class: Class(dwarfField.Class.String()),
	}

	field.fixValBasedOnClass()

	return &field, nil""","""	field := &Field{}
	field.Class = Class(dwarfField.Class.String())
	field.Attr = Attr(dwarfField.Attr.String())
	field.Val = dwarfField.Val
	field.fixValBasedOnClass()
	return field, nil""")]),
 ("by index",[(W,"""	for _, dwarfField := range dwarfEntry.Field {
		field, err := NewField(&dwarfField)""","""	for i := range dwarfEntry.Field {
		field, err := NewField(&dwarfEntry.Field[i])""")]),
]
