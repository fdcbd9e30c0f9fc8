# rewrites near the renderers of whole structures
ST='internal/struct.go'; IN4='internal/indent.go'
def l4(id, edits): ref(id, edits, ['C26','C25','C20','C12'])
l4('st-prefix-repeat', [(IN4, "	return string(maxprefix[:tabsize*depth])", "	return strings.Repeat(\" \", tabsize*depth)"), (IN4, "package internal\n", "package internal\n\nimport \"strings\"\n"), (IN4, "var maxprefix [tabsize * maxdepth]byte\n\nfunc init() {\n	for i := range maxprefix {\n		maxprefix[i] = ' '\n	}\n}\n", "")])
l4('st-prefix-const', [(IN4, "	return string(maxprefix[:tabsize*depth])", "	const spaces = \"                                \"\n	return spaces[:tabsize*depth]"), (IN4, "var maxprefix [tabsize * maxdepth]byte\n\nfunc init() {\n	for i := range maxprefix {\n		maxprefix[i] = ' '\n	}\n}\n", "")])
l4('st-prefix-switch', [(IN4, "	if depth >= maxdepth {\n		depth = maxdepth\n	}\n	if depth < 0 {\n		depth = 0\n	}\n", "	switch {\n	case depth < 0:\n		return \"\"\n	case depth > maxdepth:\n		depth = maxdepth\n	}\n")])
l4('st-newline', [(ST, "	for i, n, typ := 0, v.NumField(), v.Type(); i < n; i++ {\n		sb.WriteByte('\\n')\n		sb.WriteString(prefix)\n		sb.WriteString(typ.Field(i).Name)\n		sb.WriteString(\": \")\n", "	typ := v.Type()\n	for i := 0; i < v.NumField(); i++ {\n		newLine(sb, prefix)\n		name := typ.Field(i).Name\n		sb.WriteString(name + \": \")\n"), (ST, "			prefix := Prefix(depth)\n			for i := 0; i < v.Len(); i++ {\n				sb.WriteByte('\\n')\n				sb.WriteString(prefix)\n				fprintValue", "			prefix := Prefix(depth)\n			for i, n := 0, v.Len(); i < n; i++ {\n				newLine(sb, prefix)\n				fprintValue"), (ST, "func fprintValue(", "func newLine(sb *strings.Builder, prefix string) {\n	sb.WriteString(\"\\n\" + prefix)\n}\n\nfunc fprintValue(")])
l4('st-trimleft', [(ST, "	return strings.Trim(sb.String(), \"\\n\")", "	text := sb.String()\n	return strings.TrimRight(strings.TrimLeft(text, \"\\n\"), \"\\n\")")])
l4('st-trimfunc', [(ST, "	fprintStruct(&sb, v, depth)\n	return", "	w := &sb\n	fprintStruct(w, v, depth)\n	return")])
l4('st-assert-fprint', [(ST, "	if method := v.MethodByName(\"Fprint\"); method.IsValid() {\n		t := method.Type()\n		if t.NumIn() == 1 && t.In(0).String() == \"*strings.Builder\" && t.NumOut() == 0 {\n			method.Call([]reflect.Value{reflect.ValueOf(sb)})\n			return true\n		}\n	}\n", "	if v.CanInterface() {\n		if f, ok := v.Interface().(interface{ Fprint(*strings.Builder) }); ok {\n			f.Fprint(sb)\n			return true\n		}\n	}\n")])
l4('st-assert-stringer', [(ST, "	if method := v.MethodByName(\"String\"); method.IsValid() {\n		t := method.Type()\n		if t.NumIn() == 0 && t.NumOut() == 1 && t.Out(0).Kind() == reflect.String {\n			res := method.Call([]reflect.Value{})[0].String()\n			sb.WriteString(res)\n			return true\n		}\n	}\n	return false", "	method := v.MethodByName(\"String\")\n	if !method.IsValid() {\n		return false\n	}\n	t := method.Type()\n	if t.NumIn() != 0 || t.NumOut() != 1 || t.Out(0).Kind() != reflect.String {\n		return false\n	}\n	sb.WriteString(method.Call(nil)[0].String())\n	return true")])
l4('st-case-split', [(ST, "	case reflect.Interface, reflect.Pointer:\n		if v.IsNil() {\n			sb.WriteString(\"<nil>\")\n		} else {\n			fprintValue(sb, v.Elem(), depth)\n		}\n", "	case reflect.Interface:\n		fprintElem(sb, v, depth)\n\n	case reflect.Pointer:\n		fprintElem(sb, v, depth)\n"), (ST, "func fprintValue(", "func fprintElem(sb *strings.Builder, v reflect.Value, depth int) {\n	if v.IsNil() {\n		sb.WriteString(\"<nil>\")\n		return\n	}\n	fprintValue(sb, v.Elem(), depth)\n}\n\nfunc fprintValue(")])
l4('st-canint', [(ST, "	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n		sb.WriteString(strconv.FormatInt(v.Int(), 10))", "	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:\n		var buf [24]byte\n		sb.Write(strconv.AppendInt(buf[:0], v.Int(), 10))")])
l4('st-slice-if', [(ST, "		switch {\n		case v.Len() == 0:\n			sb.WriteString(\"<empty>\")\n		case v.Type().Elem().Kind() == reflect.Uint32:\n			oid.Fprint(sb, v.Interface().([]uint32))\n		default:\n", "		n := v.Len()\n		if n == 0 {\n			sb.WriteString(\"<empty>\")\n			return\n		}\n		if o, ok := v.Interface().([]uint32); ok {\n			oid.Fprint(sb, o)\n		} else {\n"), ])
l4('st-kind-var', [(ST, "	switch v.Kind() {\n	case reflect.Int,", "	switch kind := v.Kind(); kind {\n	case reflect.Int,"), (ST, "		sb.WriteString(\"unsupported \")\n		sb.WriteString(v.Kind().String())", "		sb.WriteString(\"unsupported \" + kind.String())")])
l4('st-fprintf', [(ST, "		sb.WriteString(strconv.FormatUint(v.Uint(), 10))", "		fmt.Fprintf(sb, \"%d\", v.Uint())"), (ST, "import (\n", "import (\n	\"fmt\"\n")])
