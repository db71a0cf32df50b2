package main

// The solver does not execute the JSON-LD library; it uses these instead. They say what the library does to the documents
// of this harness, where every term is defined and a blank node, or the credential itself as well, are the only ones.

func modelCopy(v interface{}) interface{} {
	switch x := v.(type) {
	case obj:
		c := obj{}
		for k, e := range x {
			if l, ok := e.(arr); ok && len(l) == 1 && k != "@context" {
				e = l[0]
			}
			if k == "proof" || e != nil {
				c[k] = modelCopy(e)
			}
		}
		return c
	case arr:
		c := arr{}
		for _, e := range x {
			c = append(c, modelCopy(e))
		}
		return c
	}
	return v
}

func modelCompact(doc, context obj) obj {
	c := modelCopy(doc).(obj)
	if context != nil {
		c["@context"] = context["@context"]
	}
	return c
}

func modelList(v interface{}) arr {
	switch x := v.(type) {
	case nil:
		return nil
	case arr:
		return x
	case []map[string]interface{}:
		var l arr
		for _, e := range x {
			l = append(l, e)
		}
		return l
	case []string:
		var l arr
		for _, e := range x {
			l = append(l, e)
		}
		return l
	}
	return arr{v}
}

type modelRows struct {
	blanks int
	rows   []string
}

func (r *modelRows) node(n obj) string {
	subject := "_:c14n" + string(rune('0'+r.blanks))
	if id, ok := n["id"].(string); ok && id != "" {
		subject = "<" + id + ">"
	} else {
		r.blanks++
	}
	for k, v := range n {
		switch k {
		case "@context", "id":
			continue
		}
		pred := "<urn:t#" + k + ">"
		if k == "type" {
			pred = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>"
		}
		for _, e := range modelList(v) {
			var o string
			switch x := e.(type) {
			case string:
				o = `"` + x + `"`
				if k == "type" {
					o = "<urn:t#" + x + ">"
				}
			case obj:
				o = r.node(x)
			default:
				panic("a value the model does not have")
			}
			r.rows = append(r.rows, subject+" "+pred+" "+o+" .\n")
		}
	}
	return subject
}

func modelNormalize(doc interface{}) string {
	r := &modelRows{}
	r.node(doc.(obj))
	if r.blanks > 2 {
		panic("more blank nodes than the model has")
	}
	for i := 1; i < len(r.rows); i++ {
		for j := i; j > 0 && r.rows[j] < r.rows[j-1]; j-- {
			r.rows[j], r.rows[j-1] = r.rows[j-1], r.rows[j]
		}
	}
	s := ""
	for _, e := range r.rows {
		s += e
	}
	return s
}

func modelFrameNode(n, f obj, blanks bool) obj {
	out := obj{}
	if id, ok := n["id"]; ok {
		out["id"] = id
	} else if blanks {
		out["id"] = "urn:bnid:_:c14n0"
	}
	explicit := f["@explicit"] == true
	for k, v := range n {
		if k == "@context" || k == "id" {
			continue
		}
		pattern, asked := f[k]
		if k != "type" && explicit && !asked {
			continue
		}
		if p, ok := pattern.(arr); ok && k != "type" {
			pattern = p[0] // the others do not count
		}
		ff, _ := pattern.(obj)
		l := arr{}
		for _, e := range modelList(v) {
			switch x := e.(type) {
			case obj:
				if _, ok := pattern.(string); ok {
					panic("a frame the model does not have")
				}
				l = append(l, modelFrameNode(x, ff, blanks))
			default:
				if p, ok := pattern.(string); !ok || k == "type" || p == e {
					l = append(l, e)
				}
			}
		}
		if len(l) == 1 {
			out[k] = l[0]
		} else {
			out[k] = l
		}
	}
	for k, v := range f {
		if k == "@context" || k == "@explicit" || n[k] != nil || k == "id" && n[k] == out[k] {
			continue
		}
		ff, _ := v.(obj)
		if def, ok := ff["@default"]; ok {
			out[k] = def
		} else {
			panic("a frame the model does not have")
		}
	}
	return out
}

func modelFrame(doc, f obj, blanks bool) obj {
	noID := false
	if id, ok := doc["id"]; !ok || id == "" {
		noID = true
		doc["id"] = "urn:uuid:fresh"
		f["id"] = doc["id"]
	}
	out := modelFrameNode(doc, f, blanks)
	out["@context"] = f["@context"]
	if noID {
		delete(out, "id")
		delete(f, "id")
	}
	return out
}
