W="pkg/override/override.go"
MUT=[
 ("spec wins",[(W,"""		} else {
			// If the key is not in v, copy it from nv.
			v[key] = val
		}""","""		}
		if _, isTable := v[key].(map[string]interface{}); !isTable && val != nil {
			v[key] = val
		}""")]),
 ("not kept",[(W,"			v[key] = val\n","			if val != nil {\n				v[key] = val\n			}\n")]),
 ("nested not kept",[(W,"			dst[key] = val\n","			if _, isStr := val.(string); isStr {\n				dst[key] = val\n			}\n")]),
 ("nested swapped",[(W,"mergeTables(dv.(map[string]interface{}), val.(map[string]interface{}), merge)","mergeTables(val.(map[string]interface{}), dv.(map[string]interface{}), merge)")]),
 ("nested skip",[(W,"				mergeTables(dv.(map[string]interface{}), val.(map[string]interface{}), merge)","				log.Printf(\"table %s\", key)")]),
 ("top swapped",[(W,"					mergeTables(dest, src, merge)","					mergeTables(src, dest, merge)")]),
 ("top skip",[(W,"					mergeTables(dest, src, merge)","					_, _ = dest, src")]),
 ("null removes",[(W,"	merge := true","	merge := false")]),
 ("nil restores",[(W,"			if value == nil && !merge {","			if value == nil {")]),
 ("empty restores",[(W,"		} else if !ok {\n			dst[key] = val","		} else if !ok || dv == nil {\n			dst[key] = val")]),
 ("table over leaf",[(W,"""				log.Printf("warning: cannot overwrite table with non table for %s (%v)", key, val)""","""				dst[key] = val""")]),
 ("warn stop",[(W,"""				log.Printf("warning: cannot overwrite table with non table for %s (%v)", key, val)""","""				return dst""")]),
 ("no copy",[(W,"	v := *override\n","	v, override2 := *in, *override\n	_ = override2\n")]),
 ("return in",[(W,"	return &v, nil\n","	return in, nil\n")]),
 ("copy error",[(W,"""		return nil, fmt.Errorf("unable to copy values, err: %s", err)""","""		return override, nil""")]),
 ("overrides backwards",[(W,"	for _, ovrd := range overrides {\n		overrideUnstr, err := New(ovrd)","	for i := range overrides {\n		overrideUnstr, err := New(overrides[len(overrides)-1-i])")]),
 ("merge order",[(W,"in, err = Merge(in, overrideUnstr)","in, err = Merge(overrideUnstr, in)")]),
 ("skip bad",[(W,"""		overrideUnstr, err := New(ovrd)
		if err != nil {
			return nil, err
		}""","""		overrideUnstr, err := New(ovrd)
		if err != nil {
			continue
		}""")]),
 ("first only",[(W,"			return nil, err\n		}\n	}\n	return in, nil","			return nil, err\n		}\n		break\n	}\n	return in, nil")]),
 ("merge error",[(W,"		in, err = Merge(in, overrideUnstr)\n		if err != nil {\n			return nil, err\n		}","		in, _ = Merge(in, overrideUnstr)")]),
 ("last base",[(W,"	for _, ovrd := range overrides {","	base := in\n	for _, ovrd := range overrides {"),(W,"in, err = Merge(in, overrideUnstr)","in, err = Merge(base, overrideUnstr)")]),
 ("file prefix",[(W,"""ioutil.ReadFile(strings.TrimPrefix(override, "--file:"))""","""ioutil.ReadFile(override)""")]),
 ("file error",[(W,"		if err != nil {\n			return nil, err\n		}\n		override = string(bOverride)","		if err != nil {\n			return overrideUnstr, nil\n		}\n		override = string(bOverride)")]),
 ("file content",[(W,"		override = string(bOverride)","		_ = bOverride")]),
 ("json err",[(W,"""			return nil, fmt.Errorf("couldn't unmarshal json override %s: %v", override, err)""","""			log.Printf("couldn't unmarshal json override %s: %v", override, err)""")]),
 ("yaml err",[(W,"""		return nil, fmt.Errorf("couldn't unmarshal yaml override %s: %v", override, err)""","""		log.Printf("couldn't unmarshal yaml override %s: %v", override, err)""")]),
 ("new map",[(W,"		return overrideUnstr, nil\n	}\n	// yaml","		return &map[string]interface{}{}, nil\n	}\n	// yaml")]),
 ("nil",[(W,"""	if v == nil {
		// e.g. the text of the override is `null'
		v = map[string]interface{}{}
	}
""","")]),
]
REF=[
 ("helper top",[(W,"func Merge(","func keep(v map[string]interface{}, key string, val interface{}) {\n	v[key] = val\n}\n\nfunc Merge("),(W,"			v[key] = val\n","			keep(v, key, val)\n")]),
 ("early",[(W,"	for key, val := range src {\n		if dv, ok := dst[key]; ok && !merge && dv == nil {\n			delete(dst, key)\n		} else if !ok {\n			dst[key] = val\n		} else if istable(val) {","	for key, val := range src {\n		dv, ok := dst[key]\n		if !ok {\n			dst[key] = val\n			continue\n		}\n		if !merge && dv == nil {\n			delete(dst, key)\n			continue\n		}\n		if istable(val) {")]),
 ("tables first",[(W,"""		} else if istable(val) {
			if istable(dv) {
				mergeTables(dv.(map[string]interface{}), val.(map[string]interface{}), merge)
			} else {""","""		} else if st, isT := val.(map[string]interface{}); isT {
			if dt, isT := dv.(map[string]interface{}); isT {
				mergeTables(dt, st, merge)
			} else {""")]),
 ("no merge flag",[(W,"			if value == nil && !merge {","			if !merge && value == nil {")]),
 ("index",[(W,"	for _, ovrd := range overrides {\n		overrideUnstr, err := New(ovrd)","	for i := range overrides {\n		overrideUnstr, err := New(overrides[i])")]),
 ("res var",[(W,"		in, err = Merge(in, overrideUnstr)\n		if err != nil {\n			return nil, err\n		}","		merged, err := Merge(in, overrideUnstr)\n		if err != nil {\n			return nil, err\n		}\n		in = merged")]),
 ("delegate",[(W,"	for key, val := range vc {\n		if value, ok := v[key]; ok {","	if merge {\n		mergeTables(v, vc, merge)\n		return &v, nil\n	}\n	for key, val := range vc {\n		if value, ok := v[key]; ok {")]),
 ("read helper",[(W,"func New(","func text(o string) (string, error) {\n	if !strings.HasPrefix(o, \"--file:\") {\n		return o, nil\n	}\n	b, err := ioutil.ReadFile(strings.TrimPrefix(o, \"--file:\"))\n	return string(b), err\n}\n\nfunc New("),(W,"""	if strings.HasPrefix(override, "--file:") {
		bOverride, err := ioutil.ReadFile(strings.TrimPrefix(override, "--file:"))
		if err != nil {
			return nil, err
		}
		override = string(bOverride)
	}""","""	override, err := text(override)
	if err != nil {
		return nil, err
	}"""),(W,"	// yaml by default\n	err := yaml","	// yaml by default\n	err = yaml")]),
 ("format func",[(W,"""	if strings.HasPrefix(strings.TrimSpace(override), "{") {
		err := json.Unmarshal([]byte(override), overrideUnstr)
		if err != nil {""","""	if strings.HasPrefix(strings.TrimSpace(override), "{") {
		if err := json.Unmarshal([]byte(override), overrideUnstr); err != nil {""")]),
 ("log more",[(W,"	for key, val := range vc {\n","	for key, val := range vc {\n		log.Printf(\"key %s\", key)\n")]),
]
