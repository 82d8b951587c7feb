package main

import (
	"math"

	"github.com/liliang-cn/cortexdb/v2/pkg/geo"
)

const earthKM = 6371.0

func coordIn(v any) geo.Coordinate {
	m := obj(v)
	f := func(x any) float64 {
		if num(x) == nonFinite {
			return math.NaN()
		}
		return float64(num(x)) / 20
	}
	return geo.Coordinate{Lat: f(m["lat"]), Lng: f(m["lng"])}
}
func twentieth(f float64) int { return int(math.Round(f * 20)) }
func pointOut(p geo.GeoPoint) M {
	tag, _ := p.Metadata["tag"].(string)
	return M{"id": p.ID, "lat": twentieth(p.Coordinate.Lat), "lng": twentieth(p.Coordinate.Lng), "tag": tag}
}
func pointsOut(ps []geo.GeoPoint) []any {
	out := []any{}
	for _, p := range ps {
		out = append(out, pointOut(p))
	}
	return out
}

// found renders results with their distance in metres and as an angle between two twentieths of a degree
func found(rs []geo.GeoSearchResult, unit string) []any {
	out := []any{}
	for _, r := range rs {
		km := r.Distance
		switch unit {
		case "miles":
			km *= 1.60934
		case "meters":
			km /= 1000
		}
		m := pointOut(r.Point)
		if math.IsNaN(km) || km < 0 || km > 20100 {
			m["m"], m["lo"], m["hi"] = -1, 3600, 0
		} else {
			a := km / earthKM * 180 / math.Pi * 20
			m["m"], m["lo"], m["hi"] = int(math.Round(km*1000)), int(math.Floor(a-1e-6)), int(math.Ceil(a+1e-6))
			if m["hi"].(int) > 3600 {
				m["hi"] = 3600
			}
			if a < 1e-6 {
				m["lo"] = 0
			}
		}
		out = append(out, m)
	}
	return out
}

func init() {
	G := func(e *env) *geo.GeoIndex { return e.extra["geo"].(*geo.GeoIndex) }
	domains["geo"] = func(e *env, op M) M { e.extra["geo"] = geo.NewGeoIndex(); return res(nil) }
	reg("geo_put", func(e *env, op M) M {
		p := obj(op["p"])
		return res(G(e).Insert(geo.GeoPoint{ID: str(p["id"]), Coordinate: coordIn(p), Metadata: map[string]any{"tag": str(p["tag"])}}))
	})
	reg("geo_del", func(e *env, op M) M { return M{"ok": G(e).Delete(str(op["id"])), "err": ""} })
	reg("geo_clear", func(e *env, op M) M { G(e).Clear(); return res(nil) })
	reg("geo_size", func(e *env, op M) M { return M{"ok": true, "err": "", "n": G(e).Size()} })
	reg("geo_get", func(e *env, op M) M {
		p, ok := G(e).GetPoint(str(op["id"]))
		m := M{"ok": ok, "err": "", "p": M{"id": ""}}
		if ok {
			m["p"] = pointOut(*p)
			p.Coordinate.Lat = 1 // the caller's copy
		}
		return m
	})
	reg("geo_radius", func(e *env, op M) M {
		r := float64(num(op["r"])) / 20 * math.Pi / 180 * earthKM
		u := str(op["unit"])
		switch u {
		case "miles":
			r /= 1.60934
		case "meters":
			r *= 1000
		}
		rs, err := G(e).SearchRadius(coordIn(op["c"]), r, geo.DistanceUnit(u))
		return withRes(res(err), "res", found(rs, u))
	})
	reg("geo_knn", func(e *env, op M) M {
		rs, err := G(e).SearchKNN(coordIn(op["c"]), num(op["k"]))
		return withRes(res(err), "res", found(rs, "km"))
	})
	reg("geo_box", func(e *env, op M) M {
		b := obj(op["b"])
		f := func(k string) float64 { return float64(num(b[k])) / 20 }
		ps, err := G(e).SearchBoundingBox(geo.BoundingBox{MinLat: f("lat0"), MaxLat: f("lat1"), MinLng: f("lng0"), MaxLng: f("lng1")})
		return withRes(res(err), "res", pointsOut(ps))
	})
	reg("geo_poly", func(e *env, op M) M {
		pg := []geo.Coordinate{}
		for _, c := range arr(op["pg"]) {
			pg = append(pg, coordIn(c))
		}
		ps, err := G(e).SearchPolygon(pg)
		return withRes(res(err), "res", pointsOut(ps))
	})
}
