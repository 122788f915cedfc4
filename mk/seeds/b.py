W = 'import (\n"testing"\n"github.com/hzw456/go-geo"\n)\n'
SEEDS = [
 dict(id="wkt-z-short", prop="P08", edits=[("wkt/encode.go", "strconv.FormatFloat(z, 'f', -1, 64)", "strconv.FormatFloat(z, 'f', -1, 32)")],
  needs="a height that is not a 32 bit number", breaks="heights lose digits in WKT text", pkg="wkt/",
  demo=W+'''func TestDemo(t *testing.T) {
	if s := Encode(geo.PointZ{1, 2, 1234.56789}); s != "POINT(1 2 1234.56789)" { t.Fatal(s) }
}'''),
 dict(id="wkt-bad-ring-skipped", prop="P11", edits=[("wkt/decode.go", "var polyz geo.PolygonZ\n\tfor _, v := range matches {\n\t\tlinestring, err := LineStringFromWKT(v)\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}", "var polyz geo.PolygonZ\n\tfor _, v := range matches {\n\t\tlinestring, err := LineStringFromWKT(v)\n\t\tif err != nil && len(poly)+len(polyz) == 0 {\n\t\t\treturn nil, err\n\t\t} else if err != nil {\n\t\t\tcontinue\n\t\t}")],
  needs="a polygon whose second ring has a malformed number", breaks="malformed inner rings are dropped without an error", pkg="wkt/",
  demo=W.replace('"github.com/hzw456/go-geo"\n','')+'''func TestDemo(t *testing.T) {
	if g, err := Decode("POLYGON((0 0,9 0,9 9,0 0),(1 1,2 x,2 2,1 1))"); err == nil { t.Fatal(g) }
}'''),
]
