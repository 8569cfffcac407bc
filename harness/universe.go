package main

// Universe: the schemas a case knows, by name, by group/version/kind and by
// address.
type Universe struct {
	Schemas map[string]*N     // $id -> schema
	GVK     map[string]string // group_version_kind -> $id
	URLs    map[string]*N     // address -> schema
}

func (u *Universe) tables() (schemas, gvk, urls map[string]any) {
	schemas, gvk, urls = map[string]any{}, map[string]any{}, map[string]any{}
	for k, s := range u.Schemas {
		schemas[k] = s.value()
	}
	for k, s := range u.GVK {
		gvk[k] = s
	}
	for k, s := range u.URLs {
		if s == nil {
			urls[k] = []any{"bad"}
		} else {
			urls[k] = []any{"ok", s.value()}
		}
	}
	return
}
