id="b09-box-below-equator"; prop="C38"
needs="a box that lies wholly in the south and a point in its northernmost cell"
breaks="a point inside a box in the southern hemisphere is not found"
edits=[("pkg/geo/geospatial.go","	maxGridY := int64(bbox.MaxLat / g.gridSize)\n","	maxGridY := int64(math.Floor(bbox.MaxLat / g.gridSize))\n")]
imports='"github.com/liliang-cn/cortexdb/v2/pkg/geo"'
demo='''
func main() {
	g := geo.NewGeoIndex()
	for i := 0; i < 40; i++ {
		must(g.Insert(geo.GeoPoint{ID: fmt.Sprint(i), Coordinate: geo.Coordinate{Lat: -10.05 - float64(i)/100, Lng: 20.5}}))
	}
	ps, err := g.SearchBoundingBox(geo.BoundingBox{MinLat: -20, MaxLat: -10.04, MinLng: 20, MaxLng: 21})
	must(err)
	check(len(ps) == 40, "%d of 40 points in the box", len(ps))
}
'''
