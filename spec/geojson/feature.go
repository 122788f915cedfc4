package geojson

import (
	"encoding/json"
	"errors"

	"github.com/hzw456/go-geo"
)

type vjGeometry struct {
	Type        string                 `json:"type"`
	Coordinates interface{}            `json:"coordinates,omitempty"`
	Geometries  interface{}            `json:"geometries,omitempty"`
	CRS         map[string]interface{} `json:"crs,omitempty"`
}

type vjFeature struct {
	ID         interface{}            `json:"id,omitempty"`
	Type       string                 `json:"type"`
	BBox       []float64              `json:"bbox,omitempty"`
	Geometry   *GeoJson               `json:"geometry"`
	Properties map[string]interface{} `json:"properties"`
	CRS        map[string]interface{} `json:"crs,omitempty"`
}

type vjCollection struct {
	Type     string                 `json:"type"`
	BBox     []float64              `json:"bbox,omitempty"`
	Features []*Feature             `json:"features"`
	CRS      map[string]interface{} `json:"crs,omitempty"`
}

//verif:layout P12 GeoJson
func vlayGeoJson(vjGeometry) {}

//verif:layout P12 Feature
func vlayFeature(vjFeature) {}

//verif:layout P12 FeatureCollection
func vlayCollection(vjCollection) {}

//verif:refines P12 Feature.MarshalJSON nopanic
func vspecFeatureJSON(f Feature) ([]byte, error) {
	props := f.Properties
	if len(props) == 0 {
		props = nil
	}
	return json.Marshal(vjFeature{ID: f.ID, Type: "Feature", BBox: f.BoundingBox, Geometry: f.GeometryJson, Properties: props, CRS: f.CRS})
}

//verif:refines P12 FeatureCollection.MarshalJSON nopanic
func vspecCollectionJSON(fc FeatureCollection) ([]byte, error) {
	list := fc.Features
	if list == nil {
		list = []*Feature{}
	}
	return json.Marshal(vjCollection{Type: "FeatureCollection", BBox: fc.BoundingBox, Features: list, CRS: fc.CRS})
}

//verif:refines P12 UnmarshalFeature nopanic
func vspecUnmarshalFeature(data []byte) (*Feature, error) {
	f := new(Feature)
	if err := json.Unmarshal(data, f); err != nil {
		return nil, err
	}
	return f, nil
}

//verif:refines P12 UnmarshalFeatureCollection nopanic
func vspecUnmarshalCollection(data []byte) (*FeatureCollection, error) {
	f := new(FeatureCollection)
	if err := json.Unmarshal(data, f); err != nil {
		return nil, err
	}
	return f, nil
}

//verif:refines P12 NewFeatureCollection nopanic
func vspecNewCollection() *FeatureCollection {
	return &FeatureCollection{Type: "FeatureCollection", Features: []*Feature{}}
}

//verif:refines P12 FeatureCollection.AddFeature frame
func vspecAddFeature(fc *FeatureCollection, f *Feature) *FeatureCollection {
	fc.Features = append(fc.Features, f)
	return fc
}

func vanyMarshal(g geo.Geometry) ([]byte, error) { return nil, nil }
func vctrMarshal(g geo.Geometry) ([]byte, error) { return vanyMarshal(g) }

//verif:refines P12 NewFeature nopanic via=MarshalGeo:vctrMarshal
func vspecNewFeature(g geo.Geometry) *Feature {
	data, _ := MarshalGeo(g)
	var j GeoJson
	json.Unmarshal(data, &j)
	return &Feature{Type: "Feature", GeometryJson: &j, Properties: map[string]interface{}{}, Geometry: g}
}

func vanyBox(g geo.Geometry) geo.Box { return geo.Box{} }
func vctrBox(g geo.Geometry) geo.Box { return vanyBox(g) }

//verif:refines P12 Feature.SetBoundingBox frame via=geo.BoundingBox:vctrBox
func vspecSetBox(f *Feature) {
	b := geo.BoundingBox(f.Geometry)
	f.BoundingBox = []float64{b.MinX, b.MinY, b.MaxX, b.MaxY}
}

//verif:refines P13 Feature.SetProperty frame
func vspecSetProperty(f *Feature, key string, value interface{}) {
	if f.Properties == nil {
		f.Properties = map[string]interface{}{}
	}
	f.Properties[key] = value
}

//verif:refines P13 Feature.PropertyBool frame
func vspecPropertyBool(f *Feature, key string) (bool, error) {
	if v, ok := f.Properties[key].(bool); ok {
		return v, nil
	}
	return false, errors.New("x")
}

//verif:refines P13 Feature.PropertyInt frame
func vspecPropertyInt(f *Feature, key string) (int, error) {
	switch v := f.Properties[key].(type) {
	case int:
		return v, nil
	case float64:
		return int(v), nil
	}
	return 0, errors.New("x")
}

//verif:refines P13 Feature.PropertyFloat64 frame
func vspecPropertyFloat64(f *Feature, key string) (float64, error) {
	if v, ok := f.Properties[key].(float64); ok {
		return v, nil
	}
	return 0, errors.New("x")
}

//verif:refines P13 Feature.PropertyString frame
func vspecPropertyString(f *Feature, key string) (string, error) {
	if v, ok := f.Properties[key].(string); ok {
		return v, nil
	}
	return "", errors.New("x")
}

//verif:refines P13 Feature.PropertyMustBool frame
func vspecMustBool(f *Feature, key string, def ...bool) bool {
	if v, ok := f.Properties[key].(bool); ok {
		return v
	}
	if len(def) > 0 {
		return def[0]
	}
	return false
}

//verif:refines P13 Feature.PropertyMustInt frame
func vspecMustInt(f *Feature, key string, def ...int) int {
	switch v := f.Properties[key].(type) {
	case int:
		return v
	case float64:
		return int(v)
	}
	if len(def) > 0 {
		return def[0]
	}
	return 0
}

//verif:refines P13 Feature.PropertyMustFloat64 frame
func vspecMustFloat64(f *Feature, key string, def ...float64) float64 {
	if v, ok := f.Properties[key].(float64); ok {
		return v
	}
	if len(def) > 0 {
		return def[0]
	}
	return 0
}

//verif:refines P13 Feature.PropertyMustString frame
func vspecMustString(f *Feature, key string, def ...string) string {
	if v, ok := f.Properties[key].(string); ok {
		return v
	}
	if len(def) > 0 {
		return def[0]
	}
	return ""
}
