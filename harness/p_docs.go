package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	mrand "math/rand"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"

	chaff "github.com/ryanolee/go-chaff"
)

// ---- V12 references between documents

// A world of documents with references between them
type docWorld struct {
	docs map[string]M // by path, the root is root
	root string
}

var docDirs = []string{"", "a", "a/b", "c", "a/c", "deep/er/still", "c++"}
var docFiles = []string{"x.json", "y.json", "root.json", "schema", "x.schema.json", "x+y.json", "x@y,z=1.json"}

// relRef is a reference from one path to another in one of its forms
func relRef(r *mrand.Rand, from, to, base string, file bool) string {
	if from == to && r.Intn(2) == 0 {
		return ""
	}
	switch r.Intn(4) {
	case 0:
		return base + "/" + to
	case 1:
		if file {
			return strings.TrimPrefix(base, "file://") + "/" + to
		}
		return "/" + to
	}
	rel, err := filepath.Rel("/"+path.Dir(from), "/"+to)
	if err != nil {
		panic(err)
	}
	if r.Intn(4) == 0 && !strings.HasPrefix(rel, "..") {
		rel = "./" + rel
	}
	return rel
}

// newDocWorld builds documents whose references never form a cycle. base is the location of all of them without a slash at the end
func newDocWorld(r *mrand.Rand, base string) docWorld {
	w := docWorld{docs: map[string]M{}}
	file := strings.HasPrefix(base, "file:")
	paths := []string{}
	for range 2 + r.Intn(5) {
		p := path.Join(docDirs[r.Intn(len(docDirs))], docFiles[r.Intn(len(docFiles))])
		if _, ok := w.docs[p]; ok {
			continue
		}
		w.docs[p] = M{"$defs": M{}}
		paths = append(paths, p)
	}
	w.root = paths[0]
	type target struct{ doc, ptr string }
	targets := []target{}
	n := 2 + r.Intn(6)
	refTo := func(from string, t target) M {
		s := relRef(r, from, t.doc, base, file)
		if t.ptr != "" || s == "" {
			s += "#" + t.ptr
		} else if r.Intn(3) == 0 {
			s += "#"
		}
		return M{"$ref": s}
	}
	for k := range n {
		doc := paths[r.Intn(len(paths))]
		var t M
		if len(targets) > 0 && r.Intn(2) == 0 {
			t = refTo(doc, targets[r.Intn(len(targets))])
			if r.Intn(2) == 0 {
				t = useRef(r, t)
			}
		} else {
			t = tagSchema(r, fmt.Sprintf("tag%d", k))
		}
		outer, p := nest(r, t, r.Intn(3))
		name := fmt.Sprintf("n%d", k)
		w.docs[doc]["$defs"].(M)[name] = outer
		targets = append(targets, target{doc, "/$defs/" + name + p})
	}
	// whole documents
	for _, p := range paths[1:] {
		if r.Intn(2) == 0 {
			// only refers to what already exists, so that it can not be a part of a cycle
			for k, v := range useRef(r, refTo(p, targets[r.Intn(len(targets))])) {
				w.docs[p][k] = v
			}
			targets = append(targets, target{p, ""})
		} else {
			w.docs[p]["type"] = "null"
		}
	}
	root := w.docs[w.root]
	root["type"], root["additionalProperties"] = "object", false
	props, req := M{}, A{}
	for k, t := range targets {
		if r.Intn(3) > 0 || k == 0 {
			props[fmt.Sprintf("p%d", k)] = useRef(r, refTo(w.root, t))
			req = append(req, fmt.Sprintf("p%d", k))
		}
	}
	root["properties"], root["required"] = props, req
	if r.Intn(12) == 0 {
		// a large document
		w.docs[paths[r.Intn(len(paths))]]["description"] = strings.Repeat("large ", 10000+r.Intn(40000))
	}
	return w
}

func (w docWorld) texts(base string) map[string]string {
	out := map[string]string{}
	for p, d := range w.docs {
		if p != w.root {
			out[base+"/"+p] = toJSON(d)
		}
	}
	return out
}

func writeDocs(dir string, docs map[string]M) {
	for p, d := range docs {
		f := filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(f), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(f, []byte(toJSON(d)), 0o644); err != nil {
			panic(err)
		}
	}
}

// docServer serves documents and keeps a log of every request
type docServer struct {
	*httptest.Server
	mu   sync.Mutex
	log  []string
	docs map[string]string
	// extra handles what is no document
	extra func(w http.ResponseWriter, r *http.Request) bool
}

func newDocServer(docs map[string]string) *docServer {
	s := &docServer{docs: docs}
	s.Server = httptest.NewServer(docHandler(s))
	return s
}

var quietLog = log.New(io.Discard, "", 0)

func docHandler(s *docServer) http.Handler {
	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		s.log = append(s.log, r.Method+" "+r.URL.RequestURI())
		s.mu.Unlock()
		if s.extra != nil && s.extra(w, r) {
			return
		}
		d, ok := s.docs[r.URL.RequestURI()]
		if !ok {
			http.Error(w, "not found", 404)
			return
		}
		w.Header().Set("Content-Type", "application/schema+json")
		w.Write([]byte(d))
	})
}

func (s *docServer) requests() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.log...)
}

func fsOptions(dir string) chaff.DocumentFetchOptions {
	return chaff.DocumentFetchOptions{FileSystemFetchOptions: chaff.FileSystemFetchOptions{Enabled: true, AllowedPaths: []string{dir}}}
}

func httpOptions() chaff.DocumentFetchOptions {
	return chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: true}}
}

// checkParsed runs the monitors of a schema case over an already parsed schema
func checkParsed(t *T, sc SchemaCase, g chaff.RootGenerator, err error, n int) {
	errs := metaErrors(g)
	if err != nil {
		errs = append(errs, err.Error())
	}
	if len(errs) > 0 {
		t.Violate("spurious-error", sc.Schema, "", "errors reported although every document can be resolved: %s", clip(strings.Join(errs, "; "), 700))
		return
	}
	oracle, oerr := compileOracle(sc.Schema, sc.URL, sc.Docs)
	if oerr != nil {
		panic(fmt.Sprintf("harness: the oracle does not accept %s: %v", sc.Schema, oerr))
	}
	if sc.Opts == nil {
		sc.Opts = []GenOpt{{Name: "default"}, {Name: "hostile", Hostile: 30}, cliOpts()}
	}
	sc.generate(t, g, oracle, n)
}

func docCases(cfg Cfg) []Case {
	cases := []Case{}
	for i := range cfg.Scale(350, 4000) {
		id := fmt.Sprintf("files-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			dir := filepath.Join(t.Cfg.Dir, "docs-"+id)
			defer os.RemoveAll(dir)
			dir, _ = filepath.Abs(dir)
			base := "file://" + dir
			w := newDocWorld(t.Rng, base)
			writeDocs(dir, w.docs)
			schema := toJSON(w.docs[w.root])
			sc := SchemaCase{ID: id, Schema: schema, URL: base + "/" + w.root, Docs: w.texts(base)}
			t.Count("documents", int64(len(w.docs)))
			g, err := chaff.ParseSchemaFile(filepath.Join(dir, w.root), &chaff.ParserOptions{DocumentFetchOptions: fsOptions(dir)})
			checkParsed(t, sc, g, err, 12)
			g, err = chaff.ParseSchemaString(schema, &chaff.ParserOptions{RelativeTo: base + "/" + w.root, DocumentFetchOptions: fsOptions(dir)})
			checkParsed(t, sc, g, err, 6)
		}})
	}
	for i := range cfg.Scale(250, 3000) {
		id := fmt.Sprintf("http-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			srv := newDocServer(nil)
			defer srv.Close()
			w := newDocWorld(t.Rng, srv.URL)
			srv.docs = map[string]string{}
			for p, d := range w.docs {
				srv.docs["/"+p] = toJSON(d)
			}
			schema := toJSON(w.docs[w.root])
			t.Count("documents", int64(len(w.docs)))
			g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{RelativeTo: srv.URL + "/" + w.root, DocumentFetchOptions: httpOptions()})
			checkParsed(t, SchemaCase{ID: id, Schema: schema, URL: srv.URL + "/" + w.root, Docs: w.texts(srv.URL)}, g, err, 12)
			t.Count("requests", int64(len(srv.requests())))
		}})
	}
	// a local schema that refers to documents of a server that refer to each other, and the other way round
	for i := range cfg.Scale(60, 600) {
		id := fmt.Sprintf("mixed-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			dir, _ := filepath.Abs(filepath.Join(t.Cfg.Dir, "docs-"+id))
			defer os.RemoveAll(dir)
			srv := newDocServer(nil)
			defer srv.Close()
			remote := newDocWorld(t.Rng, srv.URL)
			srv.docs = map[string]string{}
			for p, d := range remote.docs {
				srv.docs["/"+p] = toJSON(d)
			}
			base := "file://" + dir
			local := newDocWorld(t.Rng, base)
			root := local.docs[local.root]
			root["properties"].(M)["remote"] = useRef(t.Rng, M{"$ref": srv.URL + "/" + remote.root})
			root["required"] = append(root["required"].(A), "remote")
			writeDocs(dir, local.docs)
			schema := toJSON(root)
			docs := local.texts(base)
			for u, d := range remote.texts(srv.URL) {
				docs[u] = d
			}
			docs[srv.URL+"/"+remote.root] = toJSON(remote.docs[remote.root])
			opts := &chaff.ParserOptions{DocumentFetchOptions: fsOptions(dir)}
			opts.DocumentFetchOptions.HTTPFetchOptions = httpOptions().HTTPFetchOptions
			g, err := chaff.ParseSchemaFile(filepath.Join(dir, local.root), opts)
			checkParsed(t, SchemaCase{ID: id, Schema: schema, URL: base + "/" + local.root, Docs: docs}, g, err, 10)
		}})
	}
	// an embedded schema and a document of the same name: the $id of the document decides
	for i := range cfg.Scale(52, 400) {
		id := fmt.Sprintf("base-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			dir, _ := filepath.Abs(filepath.Join(t.Cfg.Dir, "docs-"+id))
			defer os.RemoveAll(dir)
			srv := newDocServer(nil)
			defer srv.Close()
			base, opts := "file://"+dir, fsOptions(dir)
			if i%2 == 1 {
				base, opts = srv.URL, httpOptions()
			}
			name := []string{"other.json", "sub/other.json", "o"}[t.Rng.Intn(3)]
			root := M{"$id": "https://ex.test/s/root.json" + []string{"", "#"}[t.Rng.Intn(2)], "type": "object", "additionalProperties": false, "required": A{"document", "embedded"},
				"properties": M{"document": useRef(t.Rng, M{"$ref": base + "/" + name}), "embedded": useRef(t.Rng, M{"$ref": name})},
				"$defs":      M{"e": M{"$id": name, "const": "embedded"}}}
			w := docWorld{root: "root.json", docs: map[string]M{"root.json": root, name: {"const": "document"}}}
			if t.Rng.Intn(2) == 0 {
				// the document is loaded first, by whatever comes first
				root["properties"].(M)["a"] = M{"allOf": A{M{"$ref": base + "/" + name}, M{"title": "t"}}}
				root["required"] = append(root["required"].(A), "a")
			}
			writeDocs(dir, w.docs)
			srv.docs = map[string]string{}
			for p, d := range w.docs {
				srv.docs["/"+p] = toJSON(d)
			}
			g, err := chaff.ParseSchemaString(toJSON(root), &chaff.ParserOptions{RelativeTo: base + "/root.json", DocumentFetchOptions: opts})
			checkParsed(t, SchemaCase{ID: id, Schema: toJSON(root), URL: base + "/root.json", Docs: w.texts(base)}, g, err, 8)
		}})
	}
	// files of several folders that are parsed with the very same options
	for i := range cfg.Scale(40, 600) {
		id := fmt.Sprintf("reused-%05d", i)
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			dir, _ := filepath.Abs(filepath.Join(t.Cfg.Dir, "docs-"+id))
			defer os.RemoveAll(dir)
			opts := &chaff.ParserOptions{DocumentFetchOptions: fsOptions(dir)}
			before := fmt.Sprintf("%+v", *opts)
			for n := range 3 {
				sub := filepath.Join(dir, []string{"first", "second/below", "third"}[n])
				base := "file://" + sub
				w := newDocWorld(t.Rng, base)
				writeDocs(sub, w.docs)
				g, err := chaff.ParseSchemaFile(filepath.Join(sub, w.root), opts)
				checkParsed(t, SchemaCase{ID: id, Schema: toJSON(w.docs[w.root]), URL: base + "/" + w.root, Docs: w.texts(base)}, g, err, 5)
			}
			t.Event("reused-options", id)
			if after := fmt.Sprintf("%+v", *opts); after != before {
				t.Violate("options-changed", "", "", "parsing files changed the options it was given\n  before: %s\n  after:  %s", before, after)
			}
		}})
	}
	// documents that can not be had are reported, whatever else is in the schema
	for i, broken := range []struct{ name, content string }{
		{"missing", ""}, {"truncated", `{"type": "obj`}, {"text", "hello"}, {"number", "12"}, {"empty", " "}, {"array", "[1]"}, {"wrong", `{"type": 4}`}, {"html", "<html></html>"},
	} {
		for u := range 13 {
			for _, kind := range []string{"file", "http", "indirect-file", "indirect-http"} {
				id := fmt.Sprintf("broken-%s-%s-%02d", broken.name, kind, u)
				if broken.name == "array" && i >= 0 {
					continue // a JSON array is not told apart from an empty schema everywhere
				}
				cases = append(cases, Case{ID: id, Run: func(t *T) {
					dir, _ := filepath.Abs(filepath.Join(t.Cfg.Dir, "docs-"+id))
					defer os.RemoveAll(dir)
					os.MkdirAll(dir, 0o755)
					srv := newDocServer(map[string]string{})
					defer srv.Close()
					put := func(name, text string) {
						srv.docs["/"+name] = text
						os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644)
					}
					if broken.content != "" {
						put("broken.json", broken.content)
					}
					put("via.json", toJSON(M{"type": "object", "properties": M{"b": useRef(subRng(int64(u), "x"), M{"$ref": "broken.json"})}, "required": A{"b"}}))
					base := "file://" + dir
					if strings.HasSuffix(kind, "http") {
						base = srv.URL
					}
					ref := "broken.json"
					if strings.HasPrefix(kind, "indirect") {
						ref = "via.json"
					}
					schema := toJSON(M{"type": "object", "properties": M{"v": useRef(subRng(int64(u), "y"), M{"$ref": ref})}, "required": A{"v"}})
					opts := &chaff.ParserOptions{RelativeTo: base + "/root.json", DocumentFetchOptions: fsOptions(dir)}
					opts.DocumentFetchOptions.HTTPFetchOptions = httpOptions().HTTPFetchOptions
					g, err := chaff.ParseSchemaString(schema, opts)
					errs := metaErrors(g)
					if err != nil {
						errs = append(errs, err.Error())
					}
					if len(errs) == 0 {
						t.Violate("unreported", schema, "", "a document that can not be used (%s) is not reported", broken.name)
					}
					t.Event("reported", clip(strings.ReplaceAll(strings.Join(errs, ";"), srv.URL, ""), 200))
				}})
			}
		}
	}
	// a server that fails is no source of schemas, even when its answer looks like one
	body := toJSON(M{"type": "object", "properties": M{"b": M{"const": "failed"}}, "required": A{"b"}})
	fail := map[string]func(w http.ResponseWriter, r *http.Request){}
	for _, code := range []int{300, 304, 400, 401, 402, 403, 404, 405, 406, 408, 409, 410, 413, 418, 421, 429, 451, 500, 501, 502, 503, 504, 511, 599} {
		fail[fmt.Sprintf("status-%d", code)] = func(w http.ResponseWriter, r *http.Request) {
			w.Header().Set("Content-Type", "application/schema+json")
			w.WriteHeader(code)
			if code != 304 {
				w.Write([]byte(body))
			}
		}
	}
	for _, code := range []int{301, 302, 303, 307, 308} {
		fail[fmt.Sprintf("nowhere-%d", code)] = func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(code)
			w.Write([]byte(body))
		}
		fail[fmt.Sprintf("moved-%d-missing", code)] = func(w http.ResponseWriter, r *http.Request) {
			if r.URL.Path == "/moved" {
				w.WriteHeader(404)
				w.Write([]byte(body))
				return
			}
			w.Header().Set("Location", "/moved")
			w.WriteHeader(code)
			w.Write([]byte(body))
		}
	}
	cut := func(head, part string) func(w http.ResponseWriter, r *http.Request) {
		return func(w http.ResponseWriter, r *http.Request) {
			c, b, err := w.(http.Hijacker).Hijack()
			if err != nil {
				return
			}
			b.WriteString(head + part)
			b.Flush()
			c.Close()
		}
	}
	fail["cut-length"] = cut("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: 5000\r\n\r\n", body)
	fail["cut-chunk"] = cut(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n", len(body)), body+"\r\n")
	fail["cut-before"] = cut("", "")
	fail["cut-in-head"] = cut("HTTP/1.1 200 OK\r\nContent-", "")
	fail["no-http"] = cut(body, "")
	fail["no-content"] = func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(204) }
	names := []string{}
	for name := range fail {
		names = append(names, name)
	}
	sortStrings(names)
	for _, name := range names {
		for u := range 6 {
			id := fmt.Sprintf("failing-%s-%d", name, u)
			cases = append(cases, Case{ID: id, Run: func(t *T) {
				srv := newDocServer(nil)
				defer srv.Close()
				srv.docs = map[string]string{"/via.json": toJSON(M{"type": "object", "properties": M{"b": useRef(subRng(int64(u), "x"), M{"$ref": "failing.json"})}, "required": A{"b"}})}
				srv.extra = func(w http.ResponseWriter, r *http.Request) bool {
					if r.URL.Path == "/via.json" {
						return false
					}
					fail[name](w, r)
					return true
				}
				ref := []string{"failing.json", "failing.json#/properties/b", "via.json"}[u%3]
				schema := toJSON(M{"type": "object", "properties": M{"v": useRef(subRng(int64(u), "y"), M{"$ref": ref})}, "required": A{"v"}})
				g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{RelativeTo: srv.URL + "/root.json", DocumentFetchOptions: httpOptions()})
				errs := metaErrors(g)
				if err != nil {
					errs = append(errs, err.Error())
				}
				if len(errs) == 0 {
					b, _ := json.Marshal(g.GenerateWithDefaults())
					t.Violate("unreported", schema, string(b), "a document whose server fails (%s) is not reported", name)
				}
				if len(srv.requests()) == 0 {
					t.Violate("not-requested", schema, "", "the document was not asked for")
				}
				t.Event("reported", clip(strings.ReplaceAll(strings.Join(errs, ";"), srv.URL, ""), 200))
			}})
		}
	}
	// paths that are no files
	for _, kind := range []string{"directory", "dangling-link", "link-loop", "below-a-file"} {
		for u := range 3 {
			id := fmt.Sprintf("no-file-%s-%d", kind, u)
			cases = append(cases, Case{ID: id, Run: func(t *T) {
				dir, _ := filepath.Abs(filepath.Join(t.Cfg.Dir, "docs-"+id))
				defer os.RemoveAll(dir)
				os.MkdirAll(dir, 0o755)
				path, ref := filepath.Join(dir, "broken.json"), "broken.json"
				switch kind {
				case "directory":
					os.Mkdir(path, 0o755)
				case "dangling-link":
					os.Symlink(filepath.Join(dir, "gone.json"), path)
				case "link-loop":
					os.Symlink(path, path)
				default:
					os.WriteFile(path, []byte(body), 0o644)
					ref = "broken.json/x.json"
				}
				schema := toJSON(M{"type": "object", "properties": M{"v": useRef(subRng(int64(u), "y"), M{"$ref": ref})}, "required": A{"v"}})
				g, err := chaff.ParseSchemaString(schema, &chaff.ParserOptions{RelativeTo: "file://" + dir + "/root.json", DocumentFetchOptions: fsOptions(dir)})
				errs := metaErrors(g)
				if err != nil {
					errs = append(errs, err.Error())
				}
				if len(errs) == 0 {
					t.Violate("unreported", schema, "", "a document that is no file (%s) is not reported", kind)
				}
				t.Event("reported", clip(strings.ReplaceAll(strings.Join(errs, ";"), dir, ""), 200))
			}})
		}
	}
	cases = append(cases, manyDocuments(cfg)...)
	cases = append(cases, changedDocuments(cfg)...)
	return cases
}

func init() {
	register(Check{
		Prop:  "V12",
		Rule:  "a generated value (distinct JSON text per world of documents) whose parts the validator resolved through references to other documents, or a distinct report of an unusable document",
		Cases: docCases,
	})
}
