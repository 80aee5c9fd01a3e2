package vs

import "reflect"

// realSelect is a select outside the scheduler.
func realSelect(hasDefault bool, cases []Case) Sel {
	rc := make([]reflect.SelectCase, 0, len(cases)+1)
	for _, c := range cases {
		v := reflect.ValueOf(c.ref)
		if c.isSend {
			sv := reflect.ValueOf(c.val)
			if !sv.IsValid() {
				sv = reflect.Zero(v.Type().Elem())
			}
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectSend, Chan: v, Send: sv})
		} else {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectRecv, Chan: v})
		}
	}
	if hasDefault {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cases) {
		return Sel{I: -1}
	}
	var val any
	if v.IsValid() {
		val = v.Interface()
	}
	return Sel{I: i, val: val, ok: ok}
}
