// Package kapi is a small Kubernetes API server over HTTP: discovery, get, list,
// create, update, patch and delete of a few resources, in memory.
package kapi

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"

	jsonpatch "gopkg.in/evanphx/json-patch.v4"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
)

// Obj is a JSON object.
type Obj = map[string]any

// Resource is a served resource.
type Resource struct {
	Group, Version, Name, Kind string
	Status                     bool
	Short                      string
}

var resources = []Resource{
	{"", "v1", "pods", "Pod", true, "po"},
	{"", "v1", "secrets", "Secret", false, ""},
	{"", "v1", "events", "Event", false, "ev"},
	{"", "v1", "services", "Service", true, "svc"},
	{"", "v1", "configmaps", "ConfigMap", false, "cm"},
	{"apps", "v1", "statefulsets", "StatefulSet", true, "sts"},
	{"batch", "v1", "jobs", "Job", true, ""},
	{"moco.cybozu.com", "v1beta2", "mysqlclusters", "MySQLCluster", true, ""},
	{"moco.cybozu.com", "v1beta2", "backuppolicies", "BackupPolicy", false, ""},
}

// Req is one request.
type Req struct {
	Verb, Resource, NS, Name, Sub, Query string
	Body                                 Obj
	Discovery                            bool
}

func (r Req) String() string {
	s := r.Verb + " " + r.Resource
	if r.Sub != "" {
		s += "/" + r.Sub
	}
	return s + " " + r.NS + "/" + r.Name
}

// Write tells whether the request changes something.
func (r Req) Write() bool { return r.Verb != "GET" }

// Verdict of the hook.
type Verdict struct {
	Before, After int  // HTTP status to fail with, before or after executing
	Drop          bool // no answer at all
}

// Server holds the objects.
type Server struct {
	Mu   sync.Mutex
	objs map[string]Obj
	rv   int
	// Hook is called for every request, with Mu held.
	Hook func(Req) Verdict
	// OnChange is called after every effective write, with Mu held.
	OnChange func(verb, res, ns, name string, old, new Obj)
}

// New makes an empty server.
func New() *Server { return &Server{objs: map[string]Obj{}, rv: 100} }

func key(res, ns, name string) string { return res + "|" + ns + "|" + name }

func clone(o Obj) Obj {
	if o == nil {
		return nil
	}
	b, _ := json.Marshal(o)
	var r Obj
	_ = json.Unmarshal(b, &r)
	return r
}

// Clone copies an object.
func Clone(o Obj) Obj { return clone(o) }

func meta(o Obj) Obj {
	m, _ := o["metadata"].(Obj)
	if m == nil {
		m = Obj{}
		o["metadata"] = m
	}
	return m
}

// Put stores an object as it is (Mu held or not in use).
func (s *Server) Put(res string, o any) {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	var r Obj
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	for _, x := range resources {
		if x.Name == res {
			r["kind"], r["apiVersion"] = x.Kind, strings.TrimPrefix(x.Group+"/"+x.Version, "/")
		}
	}
	m := meta(r)
	ns, _ := m["namespace"].(string)
	name, _ := m["name"].(string)
	s.rv++
	m["resourceVersion"] = strconv.Itoa(s.rv)
	if m["uid"] == nil || m["uid"] == "" {
		m["uid"] = fmt.Sprintf("uid-%d", s.rv)
	}
	if m["creationTimestamp"] == nil {
		m["creationTimestamp"] = "2020-01-01T00:00:00Z"
	}
	s.objs[key(res, ns, name)] = r
}

// Get reads an object into o.
func (s *Server) Get(res, ns, name string, o any) bool {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	return s.GetLocked(res, ns, name, o)
}

// GetLocked is Get with Mu held.
func (s *Server) GetLocked(res, ns, name string, o any) bool {
	x, ok := s.objs[key(res, ns, name)]
	if !ok {
		return false
	}
	b, _ := json.Marshal(x)
	if err := json.Unmarshal(b, o); err != nil {
		panic(err)
	}
	return true
}

// Del removes an object.
func (s *Server) Del(res, ns, name string) { delete(s.objs, key(res, ns, name)) }

// All returns a copy of all objects.
func (s *Server) All() map[string]Obj {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	r := map[string]Obj{}
	for k, o := range s.objs {
		r[k] = clone(o)
	}
	return r
}

// Touch changes the resource version of an object (a write by somebody else).
func (s *Server) Touch(res, ns, name string) {
	if o := s.objs[key(res, ns, name)]; o != nil {
		s.rv++
		meta(o)["resourceVersion"] = strconv.Itoa(s.rv)
	}
}

type answer struct {
	code int
	body any
	hdr  http.Header
}

func status(code int, reason, msg string) answer {
	return answer{code: code, body: Obj{"kind": "Status", "apiVersion": "v1", "metadata": Obj{}, "status": "Failure", "reason": reason, "message": msg, "code": code}}
}

func failure(code int) answer {
	switch code {
	case 409:
		return status(409, "Conflict", "the object has been modified (injected)")
	case 403:
		return status(403, "Forbidden", "injected")
	case 404:
		return status(404, "NotFound", "injected")
	}
	return status(code, "InternalError", "injected")
}

// ErrDropped is returned by Do for a dropped request.
var ErrDropped = fmt.Errorf("connection reset by peer")

// Do answers a request.
func (s *Server) Do(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	a, err := s.serve(r, body)
	if err != nil {
		return nil, err
	}
	b, _ := json.Marshal(a.body)
	h := http.Header{"Content-Type": {"application/json"}}
	for k, v := range a.hdr {
		h[k] = v
	}
	return &http.Response{StatusCode: a.code, Status: http.StatusText(a.code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(bytes.NewReader(b)), ContentLength: int64(len(b)), Request: r}, nil
}

// RoundTrip makes the server an http.RoundTripper.
func (s *Server) RoundTrip(r *http.Request) (*http.Response, error) { return s.Do(r) }

// ServeHTTP makes the server an http.Handler.
func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	resp, err := s.Do(r)
	if err != nil {
		panic(http.ErrAbortHandler)
	}
	for k, v := range resp.Header {
		w.Header()[k] = v
	}
	w.WriteHeader(resp.StatusCode)
	_, _ = io.Copy(w, resp.Body)
}

func (s *Server) serve(r *http.Request, body []byte) (answer, error) {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	p := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	verb := r.Method
	disc := func(f func() answer) (answer, error) {
		v := s.hook(Req{Verb: verb, Resource: r.URL.Path, Discovery: true})
		if v.Drop {
			return answer{}, ErrDropped
		}
		if v.Before != 0 {
			return failure(v.Before), nil
		}
		if v.After != 0 {
			return failure(v.After), nil
		}
		return f(), nil
	}
	var group, version string
	switch {
	case p[0] == "version":
		return disc(func() answer {
			return answer{code: 200, body: Obj{"major": "1", "minor": "33", "gitVersion": "v1.33.0"}}
		})
	case p[0] == "api" && len(p) == 1:
		return disc(func() answer {
			return answer{code: 200, body: Obj{"kind": "APIVersions", "versions": []string{"v1"}, "serverAddressByClientCIDRs": []any{}}}
		})
	case p[0] == "apis" && len(p) == 1:
		return disc(func() answer { return answer{code: 200, body: groupList()} })
	case p[0] == "apis" && len(p) == 2:
		return disc(func() answer {
			for _, g := range groupList()["groups"].([]any) {
				if g.(Obj)["name"] == p[1] {
					x := g.(Obj)
					x["kind"], x["apiVersion"] = "APIGroup", "v1"
					return answer{code: 200, body: x}
				}
			}
			return status(404, "NotFound", "no such group")
		})
	case p[0] == "api":
		version, p = p[1], p[2:]
	case p[0] == "apis":
		group, version, p = p[1], p[2], p[3:]
	default:
		return status(404, "NotFound", "the server could not find the requested resource"), nil
	}
	if len(p) == 0 {
		return disc(func() answer { return resourceList(group, version) })
	}
	req := Req{Verb: verb, Query: r.URL.RawQuery}
	if p[0] == "namespaces" && len(p) > 2 {
		req.NS, p = p[1], p[2:]
	}
	req.Resource = p[0]
	if len(p) > 1 {
		req.Name = p[1]
	}
	if len(p) > 2 {
		req.Sub = p[2]
	}
	var res *Resource
	for i := range resources {
		if resources[i].Group == group && resources[i].Version == version && resources[i].Name == req.Resource {
			res = &resources[i]
		}
	}
	if verb != "PATCH" && len(body) > 0 {
		req.Body = decode(body)
	} else if verb == "PATCH" {
		_ = json.Unmarshal(body, &req.Body)
	}
	v := s.hook(req)
	if v.Drop && v.After == 0 {
		return answer{}, ErrDropped
	}
	if v.Before != 0 {
		return failure(v.Before), nil
	}
	if res == nil {
		return status(404, "NotFound", "the server could not find the requested resource"), nil
	}
	a := s.exec(res, req, r, body)
	if v.After != 0 {
		if v.Drop {
			return answer{}, ErrDropped
		}
		return failure(v.After), nil
	}
	return a, nil
}

func (s *Server) hook(r Req) Verdict {
	if s.Hook == nil {
		return Verdict{}
	}
	return s.Hook(r)
}

func decode(body []byte) Obj {
	if bytes.HasPrefix(body, []byte("k8s\x00")) {
		o, gvk, err := clientgoscheme.Codecs.UniversalDeserializer().Decode(body, nil, nil)
		if err != nil {
			return nil
		}
		m, err := runtime.DefaultUnstructuredConverter.ToUnstructured(o)
		if err != nil {
			return nil
		}
		m["kind"], m["apiVersion"] = gvk.Kind, gvk.GroupVersion().String()
		return clone(m)
	}
	var o Obj
	_ = json.Unmarshal(body, &o)
	return o
}

func (s *Server) exec(res *Resource, q Req, r *http.Request, body []byte) answer {
	k := key(q.Resource, q.NS, q.Name)
	old := s.objs[k]
	store := func(verb string, o Obj) answer {
		s.rv++
		meta(o)["resourceVersion"] = strconv.Itoa(s.rv)
		o["kind"], o["apiVersion"] = res.Kind, strings.TrimPrefix(res.Group+"/"+res.Version, "/")
		s.objs[k] = o
		if s.OnChange != nil {
			s.OnChange(verb, q.Resource, q.NS, q.Name, old, clone(o))
		}
		code := 200
		if verb == "create" {
			code = 201
		}
		return answer{code: code, body: clone(o)}
	}
	notFound := status(404, "NotFound", fmt.Sprintf("%s %q not found", q.Resource, q.Name))
	if q.Sub != "" && q.Sub != "status" {
		return status(405, "MethodNotAllowed", "subresource not served")
	}
	if q.Sub == "status" && !res.Status {
		return notFound
	}
	switch q.Verb {
	case "GET":
		if q.Name != "" {
			if old == nil {
				return notFound
			}
			return answer{code: 200, body: clone(old)}
		}
		sel, err := labels.Parse(r.URL.Query().Get("labelSelector"))
		if err != nil {
			return status(400, "BadRequest", err.Error())
		}
		var ks []string
		for x := range s.objs {
			ks = append(ks, x)
		}
		sort.Strings(ks)
		items := []any{}
		for _, x := range ks {
			f := strings.SplitN(x, "|", 3)
			if f[0] != q.Resource || q.NS != "" && f[1] != q.NS {
				continue
			}
			o := s.objs[x]
			l := labels.Set{}
			if m, ok := meta(o)["labels"].(Obj); ok {
				for a, b := range m {
					l[a] = fmt.Sprint(b)
				}
			}
			if sel.Matches(l) {
				items = append(items, clone(o))
			}
		}
		return answer{code: 200, body: Obj{"kind": res.Kind + "List", "apiVersion": strings.TrimPrefix(res.Group+"/"+res.Version, "/"), "metadata": Obj{"resourceVersion": strconv.Itoa(s.rv)}, "items": items}}
	case "POST":
		if q.Body == nil {
			return status(400, "BadRequest", "cannot decode the body")
		}
		o := clone(q.Body)
		m := meta(o)
		name, _ := m["name"].(string)
		if name == "" {
			g, _ := m["generateName"].(string)
			name = fmt.Sprintf("%s%d", g, s.rv)
			m["name"] = name
		}
		m["namespace"] = q.NS
		q.Name = name
		k = key(q.Resource, q.NS, name)
		if s.objs[k] != nil {
			return status(409, "AlreadyExists", name+" already exists")
		}
		m["uid"] = fmt.Sprintf("uid-%d", s.rv+1)
		m["creationTimestamp"] = "2020-01-01T00:00:00Z"
		return store("create", o)
	case "PUT", "PATCH":
		if old == nil {
			return notFound
		}
		n := clone(q.Body)
		if q.Verb == "PATCH" {
			ob, _ := json.Marshal(old)
			var nb []byte
			var err error
			switch ct := r.Header.Get("Content-Type"); {
			case strings.Contains(ct, "json-patch"):
				var jp jsonpatch.Patch
				if jp, err = jsonpatch.DecodePatch(body); err == nil {
					nb, err = jp.Apply(ob)
				}
			case strings.Contains(ct, "merge-patch"): // for maps strategic and plain merges agree
				nb, err = jsonpatch.MergePatch(ob, body)
			default:
				return status(415, "UnsupportedMediaType", ct)
			}
			if err != nil {
				return status(422, "Invalid", err.Error())
			}
			n = nil
			if err := json.Unmarshal(nb, &n); err != nil {
				return status(422, "Invalid", err.Error())
			}
		}
		if n == nil {
			return status(400, "BadRequest", "cannot decode the body")
		}
		if rv, _ := meta(n)["resourceVersion"].(string); rv != "" && rv != meta(old)["resourceVersion"] {
			return status(409, "Conflict", "the object has been modified; please apply your changes to the latest version and try again")
		}
		if res.Status {
			if q.Sub == "status" {
				o := clone(old)
				o["status"] = n["status"]
				n = o
			} else if st, ok := old["status"]; ok {
				n["status"] = st
			} else {
				delete(n, "status")
			}
		}
		for _, f := range []string{"uid", "creationTimestamp", "name", "namespace"} {
			if v, ok := meta(old)[f]; ok {
				meta(n)[f] = v
			}
		}
		verb := "update"
		if q.Sub != "" {
			verb = "update-status"
		}
		return store(verb, n)
	case "DELETE":
		if old == nil {
			return notFound
		}
		delete(s.objs, k)
		if s.OnChange != nil {
			s.OnChange("delete", q.Resource, q.NS, q.Name, old, nil)
		}
		return answer{code: 200, body: Obj{"kind": "Status", "apiVersion": "v1", "status": "Success"}}
	}
	return status(405, "MethodNotAllowed", "unsupported")
}

func groupList() Obj {
	seen := map[string]bool{}
	groups := []any{}
	for _, r := range resources {
		if r.Group == "" || seen[r.Group] {
			continue
		}
		seen[r.Group] = true
		gv := Obj{"groupVersion": r.Group + "/" + r.Version, "version": r.Version}
		groups = append(groups, Obj{"name": r.Group, "versions": []any{gv}, "preferredVersion": gv})
	}
	return Obj{"kind": "APIGroupList", "apiVersion": "v1", "groups": groups}
}

func resourceList(group, version string) answer {
	l := []any{}
	verbs := []string{"create", "delete", "get", "list", "patch", "update", "watch"}
	for _, r := range resources {
		if r.Group != group || r.Version != version {
			continue
		}
		e := Obj{"name": r.Name, "singularName": strings.ToLower(r.Kind), "namespaced": true, "kind": r.Kind, "verbs": verbs}
		if r.Short != "" {
			e["shortNames"] = []string{r.Short}
		}
		l = append(l, e)
		if r.Status {
			l = append(l, Obj{"name": r.Name + "/status", "singularName": "", "namespaced": true, "kind": r.Kind, "verbs": []string{"get", "patch", "update"}})
		}
	}
	if len(l) == 0 {
		return status(404, "NotFound", "no such version")
	}
	return answer{code: 200, body: Obj{"kind": "APIResourceList", "apiVersion": "v1", "groupVersion": strings.TrimPrefix(group+"/"+version, "/"), "resources": l}}
}
