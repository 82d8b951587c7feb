package main

import "github.com/liliang-cn/cortexdb/v2/pkg/core"

func policyOf(p string) core.AdaptPolicy { return coreConfig("", M{"adapt": p}).AutoDimAdapt }

func init() {
	reg("set_policy", func(e *env, op M) M {
		e.core.s.SetAutoDimAdapt(policyOf(str(op["policy"])))
		return M{"ok": true, "err": ""}
	})
	reg("get_m", func(e *env, op M) M {
		r, err := e.core.s.GetByID(bg, str(op["id"]))
		m := res(err)
		m["m"] = []any{}
		if err == nil {
			m["m"] = mvec(r.Vector)
		}
		return m
	})
	reg("adapt", func(e *env, op M) M {
		v := vec(op["vec"])
		for i := range v { // a power of two
			v[i] /= float32(num(op["div"]))
		}
		r, err := core.NewDimensionAdapter(policyOf(str(op["policy"]))).AdaptVector(v, len(v), num(op["d"]))
		m := res(err)
		m["m"] = mvec(r)
		return m
	})
}
