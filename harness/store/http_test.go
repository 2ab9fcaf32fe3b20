//go:build verifhttp

package storedrv

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/restapi"
	"github.com/fairDataSociety/FaVe/restapi/operations"
	vs "github.com/fairDataSociety/FaVe/verifx/stack"
	"github.com/fairdatasociety/fairOS-dfs/pkg/dfs"
	"github.com/go-openapi/loads"
)

// overHTTP talks to the complete REST server, configured as cmd/fave-server does
// it, on top of the in-memory storage.
type overHTTP struct {
	srv *httptest.Server
}

var spec *loads.Document

func newHTTP(env *vs.Env) (target, error) {
	if spec == nil {
		s, err := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
		if err != nil {
			return nil, err
		}
		spec = s
	}
	dfs.VerifAPI = func() *dfs.API { return env.FreshAPI() }
	os.Setenv("VECTORIZER_URL", env.VecURL)
	os.Setenv("USER", vs.User)
	os.Setenv("PASSWORD", vs.Password)
	os.Setenv("POD", vs.Pod)
	server := restapi.NewServer(operations.NewFaveAPI(spec))
	err := vs.Guard(func() error { server.ConfigureAPI(); return nil })
	if err != nil {
		return nil, err
	}
	return &overHTTP{srv: httptest.NewServer(server.GetHandler())}, nil
}

func (o *overHTTP) close() { o.srv.Close() }

// errBroken: the server broke off or failed internally
type errBroken struct{ msg string }

func (e errBroken) Error() string { return e.msg }

func (o *overHTTP) send(method, path string, body []byte, out interface{}) error {
	var rd io.Reader
	if body != nil {
		rd = bytes.NewReader(body)
	}
	req, err := http.NewRequest(method, o.srv.URL+path, rd)
	if err != nil {
		return err
	}
	req.Header.Set("Content-Type", "application/json")
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		return errBroken{"connection broken: " + err.Error()}
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return errBroken{"connection broken: " + err.Error()}
	}
	if resp.StatusCode >= 500 {
		return errBroken{fmt.Sprintf("status %d: %s", resp.StatusCode, b)}
	}
	if resp.StatusCode != http.StatusOK {
		return fmt.Errorf("status %d: %s", resp.StatusCode, b)
	}
	if out == nil {
		return nil
	}
	if err := exactly(b, out); err != nil {
		return errBroken{"unparsable answer: " + err.Error()}
	}
	return nil
}

func (o *overHTTP) post(path string, body interface{}, out interface{}) error {
	b, err := json.Marshal(body)
	if err != nil {
		return fmt.Errorf("driver: %w", err)
	}
	return o.send("POST", "/v1"+path, b, out)
}

// document ids are UUIDs over HTTP
var uuids = struct {
	sync.Mutex
	of map[string]string
}{of: map[string]string{}}

func uuidOf(k int) string {
	u := fmt.Sprintf("%08x-0000-4000-8000-%012d", k*2654435761%(1<<32), k)
	if k%3 == 0 {
		u = strings.ToUpper(u)
	}
	return u
}

func toUUID(id string) string {
	m := numbered.FindStringSubmatch(id)
	if m == nil {
		return id
	}
	k, err := strconv.Atoi(m[2])
	if err != nil {
		return id
	}
	u := uuidOf(k) + m[3]
	uuids.Lock()
	uuids.of[u] = id
	uuids.Unlock()
	return u
}

var numbered = regexp.MustCompile(`^(d[^0-9]*)([0-9]+)(.*)$`)

func fromUUID(id string) string {
	uuids.Lock()
	defer uuids.Unlock()
	if x, ok := uuids.of[id]; ok {
		return x
	}
	return "?" + id
}

func (o *overHTTP) create(name string, idx map[string]string) error {
	list := []M{}
	for f, t := range idx {
		if f != "id" && f != "hnswId" {
			list = append(list, M{"fieldName": f, "fieldType": t})
		}
	}
	return o.post("/collections", M{"name": name, "indexes": list}, nil)
}

func (o *overHTTP) remove(name string) error {
	return o.send("DELETE", "/v1/collections/"+url.PathEscape(name), nil, nil)
}

func (o *overHTTP) list() ([]M, error) {
	var cs []struct {
		Name    string `json:"name"`
		Indexes []struct {
			FieldName string `json:"fieldName"`
			FieldType string `json:"fieldType"`
		} `json:"indexes"`
	}
	if err := o.send("GET", "/v1/collections", nil, &cs); err != nil {
		return nil, err
	}
	out := []M{}
	for _, c := range cs {
		idx := M{}
		for _, i := range c.Indexes {
			if _, dup := idx[i.FieldName]; dup {
				idx["duplicate"] = i.FieldName
			}
			idx[i.FieldName] = i.FieldType
		}
		out = append(out, M{"name": c.Name, "idx": idx})
	}
	return out, nil
}

func (o *overHTTP) add(coll string, props []string, docs []*document.Document) error {
	list := []M{}
	for _, d := range docs {
		m := M{"properties": d.Properties}
		if d.ID != "" {
			m["id"] = toUUID(d.ID)
		}
		if d.Properties == nil {
			delete(m, "properties")
		} else if v, ok := d.Properties["vector"]; ok {
			// what JSON cannot carry
			switch x := v.(type) {
			case []int:
				d.Properties["vector"] = M{"x": 1}
			case []float32:
				for _, f := range x {
					if f != f {
						d.Properties["vector"] = []interface{}{1, "NaN", 1}
					}
				}
			}
		}
		if f, isF := d.Properties["rev"].(float64); isF && math.IsInf(f, 0) {
			d.Properties["rev"] = json.RawMessage("1e999")
		}
		list = append(list, m)
	}
	var ok M
	if err := o.post("/documents", M{"name": coll, "propertiesToVectorize": props, "documents": list}, &ok); err != nil {
		return err
	}
	return nil
}

func (o *overHTTP) near(path, coll string, body M) ([]M, []float32, error) {
	var ans struct {
		Name      string
		Documents []struct {
			ID         string `json:"id"`
			Properties M      `json:"properties"`
		}
	}
	if err := o.post(path, body, &ans); err != nil {
		return nil, nil, err
	}
	if ans.Name != coll {
		return nil, nil, errBroken{"answer for another collection: " + ans.Name}
	}
	ms, ds := []M{}, []float32{}
	for _, d := range ans.Documents {
		m := M{}
		for k, v := range d.Properties {
			m[k] = v
		}
		m["id"] = fromUUID(d.ID)
		doubles(m)
		dist, ok := m["distance"].(float64)
		if !ok {
			return nil, nil, errBroken{"no distance in the answer"}
		}
		delete(m, "distance")
		ms, ds = append(ms, m), append(ds, float32(dist))
	}
	return ms, ds, nil
}

func (o *overHTTP) searchV(coll string, q []float32, dist float32, limit int) ([]M, []float32, error) {
	return o.near("/nearest-documents-by-vector", coll, M{"name": coll, "vector": q, "distance": dist, "limit": limit})
}

func (o *overHTTP) searchT(coll string, text string, dist float32, limit int) ([]M, []float32, error) {
	return o.near("/nearest-documents", coll, M{"name": coll, "text": text, "distance": dist, "limit": limit})
}

func (o *overHTTP) get(coll, field, val string) (M, error) {
	if field == "id" {
		val = toUUID(val)
	}
	var d struct {
		ID         string `json:"id"`
		Properties M      `json:"properties"`
	}
	q := url.Values{"collection": {coll}, "property": {field}, "value": {val}}
	if err := o.send("GET", "/v1/documents?"+q.Encode(), nil, &d); err != nil {
		return nil, err
	}
	m := M{}
	for k, v := range d.Properties {
		m[k] = v
	}
	m["id"] = fromUUID(d.ID)
	return doubles(m), nil
}

// raw sends a request that has to be refused, whatever the store holds.
func (o *overHTTP) raw(kind, coll string) error {
	id := uuidOf(1)
	doc := M{"id": id, "properties": M{"title": "zzzz", "num": 77777, "vector": []int{9, 0, 0}}}
	idx := []M{{"fieldName": "title", "fieldType": "string"}}
	switch kind {
	case "blankcreate":
		return o.post("/collections", M{"name": "", "indexes": idx}, nil)
	case "noindexes":
		return o.post("/collections", M{"name": "unindexed"}, nil)
	case "indextype":
		return o.post("/collections", M{"name": "mistyped", "indexes": []M{{"fieldName": "title", "fieldType": "text"}}}, nil)
	case "nullindex":
		return o.post("/collections", M{"name": "nullindex", "indexes": []interface{}{nil}}, nil)
	case "blankadd":
		return o.post("/documents", M{"name": "", "propertiesToVectorize": []string{"body"}, "documents": []M{doc}}, nil)
	case "nodocs":
		return o.post("/documents", M{"name": coll, "propertiesToVectorize": []string{"body"}}, nil)
	case "noprops":
		return o.post("/documents", M{"name": coll, "documents": []M{doc}}, nil)
	case "baduuid":
		return o.post("/documents", M{"name": coll, "propertiesToVectorize": []string{"body"}, "documents": []M{doc, {"id": "not-a-uuid", "properties": doc["properties"]}}}, nil)
	case "scalarprops":
		return o.post("/documents", M{"name": coll, "propertiesToVectorize": []string{"body"}, "documents": []M{doc, {"id": id, "properties": 7}}}, nil)
	case "nulldoc":
		return o.post("/documents", M{"name": coll, "propertiesToVectorize": []string{"body"}, "documents": []interface{}{doc, nil}}, nil)
	case "json":
		return o.send("POST", "/v1/documents", []byte(`{"name": "`+coll+`", "documents": [`), nil)
	case "jsoncoll":
		return o.send("POST", "/v1/collections", []byte(`{"name": "half", "indexes": [`), nil)
	case "nobody":
		return o.send("POST", "/v1/documents", nil, nil)
	case "blanktext":
		return o.post("/nearest-documents", M{"name": coll, "text": "", "distance": 2, "limit": 3}, nil)
	case "blankname":
		return o.post("/nearest-documents", M{"name": "", "text": "alpha", "distance": 2, "limit": 3}, nil)
	case "novector":
		return o.post("/nearest-documents-by-vector", M{"name": coll, "distance": 2, "limit": 3}, nil)
	case "blankvname":
		return o.post("/nearest-documents-by-vector", M{"name": "", "vector": []int{9, 0, 0}, "distance": 2, "limit": 3}, nil)
	case "vectortype":
		return o.send("POST", "/v1/nearest-documents-by-vector", []byte(`{"name": "`+coll+`", "vector": ["a"], "distance": 2}`), nil)
	case "limittype":
		return o.send("POST", "/v1/nearest-documents-by-vector", []byte(`{"name": "`+coll+`", "vector": [9,0,0], "distance": 2, "limit": "many"}`), nil)
	case "getmissing":
		return o.send("GET", "/v1/documents?collection="+url.QueryEscape(coll)+"&property=id", nil, nil)
	case "getblank":
		return o.send("GET", "/v1/documents?collection=&property=id&value="+id, nil, nil)
	case "noroute":
		return o.send("GET", "/v1/nosuch", nil, nil)
	case "method":
		return o.send("PUT", "/v1/collections", []byte(`{}`), nil)
	}
	return errors.New("driver: unknown kind " + kind)
}
