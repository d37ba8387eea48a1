W="pkg/dwarfy/dwarf.go"
MUT=[
 ("root pop",[(W,"			if len(parentsStack) > 1 {","			if len(parentsStack) > 0 {")]),
 ("no pop",[(W,"				parentsStack = parentsStack[:len(parentsStack)-1]","				_ = parentsStack")]),
 ("pop deep",[(W,"			if len(parentsStack) > 1 {","			if len(parentsStack) > 2 {")]),
 ("pop two",[(W,"				parentsStack = parentsStack[:len(parentsStack)-1]","				parentsStack = parentsStack[:1]")]),
 ("pop front",[(W,"				parentsStack = parentsStack[:len(parentsStack)-1]","				parentsStack = parentsStack[1:]")]),
 ("null sibling",[(W,"			if len(parentsStack) > 1 {","			if len(parentsStack) > 1 && parentsStack[len(parentsStack)-1].Sibling == 0 {")]),
 ("no cu reset",[(W,'		if dwarfEntry.Tag.String() == "CompileUnit" {','		if dwarfEntry.Tag.String() == "CompileUnits" {')]),
 ("reset partial",[(W,'		if dwarfEntry.Tag.String() == "CompileUnit" {','		if dwarfEntry.Tag.String() == "CompileUnit" || dwarfEntry.Tag.String() == "Namespace" {')]),
 ("keep level",[(W,"					parentsStack = parentsStack[:rev_i]","					parentsStack = parentsStack[:rev_i+1]")]),
 ("no break",[(W,"""					//log.Printf("Updated Stack: %v\\n", parentsStack)
					break""","""					continue""")]),
 ("sib any",[(W,"""				if parentsStackEntry.Sibling != 0 &&
					parentsStackEntry.Sibling == Offset(dwarfEntry.Offset) {""","""				if parentsStackEntry.Sibling != 0 &&
					parentsStackEntry.Sibling <= Offset(dwarfEntry.Offset) {""")]),
 ("parent grand",[(W,"			parentOffset := parentsStack[len(parentsStack)-1].Offset","			parentOffset := parentsStack[(len(parentsStack)-1)/2].Offset")]),
 ("parent first",[(W,"			parentOffset := parentsStack[len(parentsStack)-1].Offset","			parentOffset := parentsStack[0].Offset")]),
 ("parent sib",[(W,"			parentOffset := parentsStack[len(parentsStack)-1].Offset","			parentOffset := parentsStack[len(parentsStack)-1].Sibling")]),
 ("no parent top",[(W,"		if len(parentsStack) > 0 {","		if len(parentsStack) > 1 {")]),
 ("child front",[(W,"append(data.Entries[*entry.Parent].Children, Offset(dwarfEntry.Offset))","append([]Offset{Offset(dwarfEntry.Offset)}, data.Entries[*entry.Parent].Children...)")]),
 ("child only",[(W,"append(data.Entries[*entry.Parent].Children, Offset(dwarfEntry.Offset))","[]Offset{Offset(dwarfEntry.Offset)}")]),
 ("child parent",[(W,"append(data.Entries[*entry.Parent].Children, Offset(dwarfEntry.Offset))","append(data.Entries[*entry.Parent].Children, parentOffset)")]),
 ("child root",[(W,"			data.Entries[parentOffset].Children = append(data.Entries[*entry.Parent].Children,","			data.Entries[0].Children = append(data.Entries[*entry.Parent].Children,")]),
 ("push always",[(W,"		if dwarfEntry.Children {","		if dwarfEntry.Children || dwarfEntry.Tag == dwarf.TagPointerType {")]),
 ("push some",[(W,"		if dwarfEntry.Children {","		if dwarfEntry.Children && len(parentsStack) < 16 {")]),
 ("push sibling",[(W,"				parentStackEntry.Sibling = Offset(sibling)","				parentStackEntry.Offset = Offset(sibling)")]),
 ("no sibling",[(W,"				parentStackEntry.Sibling = Offset(sibling)","				_ = sibling")]),
 ("sib type",[(W,"dwarfEntry.Val(dwarf.AttrSibling).(dwarf.Offset)","dwarfEntry.Val(dwarf.AttrType).(dwarf.Offset)")]),
 ("err eof",[(W,"		if dwarfEntry == nil && err == nil {","		if dwarfEntry == nil {")]),
 ("err skip",[(W,"""		entry, err := NewEntry(dwarfData, dwarfEntry)
		if err != nil {
			return nil, err
		}
		data""","""		entry, err := NewEntry(dwarfData, dwarfEntry)
		if err != nil {
			continue
		}
		data""")]),
 ("skip tag",[(W,"		if dwarfEntry.Tag == 0 {","		if dwarfEntry.Tag == dwarf.TagImportedUnit {\n			continue\n		}\n		if dwarfEntry.Tag == 0 {")]),
 ("stop early",[(W,"		if dwarfEntry.Tag == 0 {","		if dwarfEntry.Tag == dwarf.TagSkeletonUnit {\n			break\n		}\n		if dwarfEntry.Tag == 0 {")]),
 ("skip kids",[(W,"		// CompileUnits not always have","		if dwarfEntry.Tag == dwarf.TagLexDwarfBlock {\n			reader.SkipChildren()\n			continue\n		}\n		// CompileUnits not always have")]),
 ("skip kids quietly",[(W,"		// CompileUnits not always have","		if dwarfEntry.Tag == dwarf.TagLexDwarfBlock {\n			reader.SkipChildren()\n		}\n		// CompileUnits not always have")]),
 ("no root",[(W,"	data.Entries[0] = &Entry{}\n","")]),
]
W2=W
REF=[
 ("helper parent",[(W,"""			parentOffset := parentsStack[len(parentsStack)-1].Offset""","""			top := parentsStack[len(parentsStack)-1]
			parentOffset := top.Offset""")]),
 ("parent var",[(W,"			data.Entries[parentOffset].Children = append(data.Entries[*entry.Parent].Children, Offset(dwarfEntry.Offset))","			parent := data.Entries[parentOffset]\n			parent.Children = append(parent.Children, Offset(dwarfEntry.Offset))")]),
 ("offset var",[(W,"		data.Entries[Offset(dwarfEntry.Offset)] = entry","		offset := Offset(dwarfEntry.Offset)\n		data.Entries[offset] = entry")]),
 ("eof order",[(W,"""		if dwarfEntry == nil && err == nil {
			//log.Printf("done\\n")
			break
		}
		if err != nil {
			return nil, err
		}""","""		if err != nil {
			return nil, err
		}
		if dwarfEntry == nil {
			break
		}""")]),
 ("eof ret",[(W,"""			//log.Printf("done\\n")
			break
""","""			return data, nil
""")]),
 ("null len",[(W,"			if len(parentsStack) > 1 {","			if n := len(parentsStack); n >= 2 {")]),
 ("null else",[(W,"""			if len(parentsStack) > 1 {
				parentsStack = parentsStack[:len(parentsStack)-1]
			}
			continue""","""			if len(parentsStack) <= 1 {
				continue
			}
			parentsStack = parentsStack[:len(parentsStack)-1]
			continue""")]),
 ("loop down",[(W,"""			for i := range parentsStack {
				rev_i := len(parentsStack) - i - 1
""","""			for rev_i := len(parentsStack) - 1; rev_i >= 0; rev_i-- {
""")]),
 ("nested if",[(W,"""				if parentsStackEntry.Sibling != 0 &&
					parentsStackEntry.Sibling == Offset(dwarfEntry.Offset) {""","""				if parentsStackEntry.Sibling == 0 {
					continue
				}
				if Offset(dwarfEntry.Offset) == parentsStackEntry.Sibling {""")]),
 ("cu const",[(W,'		if dwarfEntry.Tag.String() == "CompileUnit" {','		if dwarfEntry.Tag == dwarf.TagCompileUnit {')]),
 ("cu slice",[(W,"""			parentsStack = []struct {
				Offset  Offset
				Sibling Offset
			}{{Offset: 0}}
		} else""","""			parentsStack = parentsStack[:1]
		} else""")]),
 ("push literal",[(W,"""			sibling, ok := dwarfEntry.Val(dwarf.AttrSibling).(dwarf.Offset)
			if ok {
				parentStackEntry.Sibling = Offset(sibling)
			}
			parentsStack""","""			if sibling, ok := dwarfEntry.Val(dwarf.AttrSibling).(dwarf.Offset); ok {
				parentStackEntry.Sibling = Offset(sibling)
			}
			parentsStack""")]),
 ("no guard",[(W,"""		if !dwarfEntry.Children {""","""		if !dwarfEntry.Children {""")]) if 0 else
 ("early next",[(W,"""		if dwarfEntry.Children {
			parentStackEntry""","""		if !dwarfEntry.Children {
			continue
		}
		{
			parentStackEntry""")]),
 ("named type",[(W,"func NewData(","type level struct {\n	Offset  Offset\n	Sibling Offset\n}\n\nfunc NewData("),(W,"""	var parentsStack []struct {
		Offset  Offset
		Sibling Offset // 0 if not defined
	} = []struct {
		Offset  Offset
		Sibling Offset
	}{{Offset: 0}}""","""	parentsStack := []level{{Offset: 0}}"""),(W,"""			parentsStack = []struct {
				Offset  Offset
				Sibling Offset
			}{{Offset: 0}}""","""			parentsStack = []level{{Offset: 0}}"""),(W,"""			parentStackEntry := struct {
				Offset  Offset
				Sibling Offset
			}{Offset: Offset(dwarfEntry.Offset)}""","""			parentStackEntry := level{Offset: Offset(dwarfEntry.Offset)}""")]),
 ("unwind helper",[(W,"func NewData(","type level struct {\n	Offset  Offset\n	Sibling Offset\n}\n\nfunc unwind(s []level, o Offset) []level {\n	for i := len(s) - 1; i >= 0; i-- {\n		if s[i].Sibling != 0 && s[i].Sibling == o {\n			return s[:i]\n		}\n	}\n	return s\n}\n\nfunc NewData("),(W,"""	var parentsStack []struct {
		Offset  Offset
		Sibling Offset // 0 if not defined
	} = []struct {
		Offset  Offset
		Sibling Offset
	}{{Offset: 0}}""","""	parentsStack := []level{{Offset: 0}}"""),(W,"""			parentsStack = []struct {
				Offset  Offset
				Sibling Offset
			}{{Offset: 0}}""","""			parentsStack = []level{{Offset: 0}}"""),(W,"""			parentStackEntry := struct {
				Offset  Offset
				Sibling Offset
			}{Offset: Offset(dwarfEntry.Offset)}""","""			parentStackEntry := level{Offset: Offset(dwarfEntry.Offset)}"""),(W,"""			for i := range parentsStack {
				rev_i := len(parentsStack) - i - 1
				parentsStackEntry := parentsStack[rev_i]
				if parentsStackEntry.Sibling != 0 &&
					parentsStackEntry.Sibling == Offset(dwarfEntry.Offset) {
					// we need to delete the stack till that level
					parentsStack = parentsStack[:rev_i]
					//log.Printf("Updated Stack: %v\\n", parentsStack)
					break
				}
			}""","""			parentsStack = unwind(parentsStack, Offset(dwarfEntry.Offset))""")]),
 ("link helper",[(W,"func NewData(","func (d *Data) link(parent Offset, child Offset) {\n	d.Entries[child].Parent = &parent\n	d.Entries[parent].Children = append(d.Entries[parent].Children, child)\n}\n\nfunc NewData("),(W,"""			// get parent from our stack's last element
			entry.Parent = &parentOffset
			// put our offset into the parent's child list
			data.Entries[parentOffset].Children = append(data.Entries[*entry.Parent].Children, Offset(dwarfEntry.Offset))""","""			data.link(parentOffset, Offset(dwarfEntry.Offset))""")]),
]
