package main

import (
	"encoding/json"
	"encoding/pem"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"

	chaff "github.com/ryanolee/go-chaff"
)

var trustOnce sync.Once

// newTLSDocServer serves documents over https. The certificate is one that this process and the tools it starts trust
func newTLSDocServer(cfg Cfg, docs map[string]string) *docServer {
	s := &docServer{docs: docs}
	s.Server = httptest.NewUnstartedServer(docHandler(s))
	s.Server.Config.ErrorLog = quietLog
	s.StartTLS()
	trustOnce.Do(func() {
		file, err := filepath.Abs(filepath.Join(cfg.Dir, "trusted.pem"))
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw}), 0o644); err != nil {
			panic(err)
		}
		os.Setenv("SSL_CERT_FILE", file)
	})
	return s
}

// tlsCases: what is allowed over secure connections
func tlsCases(cfg Cfg, cli string) []Case {
	fine := toJSON(M{"const": "fine", "$defs": M{"x": M{"const": "fine"}}})
	sec := toJSON(M{"const": secret, "$defs": M{"x": M{"const": secret}}})
	type servers struct{ secure, other, plain *docServer }
	start := func(c Cfg) (servers, func()) {
		s := servers{newTLSDocServer(c, nil), newTLSDocServer(c, nil), newDocServer(nil)}
		s.plain.extra = func(w http.ResponseWriter, r *http.Request) bool { w.Write([]byte(sec)); return true }
		to := func(w http.ResponseWriter, r *http.Request, code int) bool {
			// the path tells where to go: /<server>/<rest>, for example /other/plain/secret.json
			name, rest, _ := strings.Cut(strings.TrimPrefix(r.URL.Path, "/"), "/")
			target := map[string]*docServer{"secure": s.secure, "other": s.other, "plain": s.plain}[name]
			if target == nil {
				return false
			}
			http.Redirect(w, r, target.URL+"/"+rest, code)
			return true
		}
		s.secure.extra = func(w http.ResponseWriter, r *http.Request) bool { return to(w, r, 302) }
		s.other.extra = func(w http.ResponseWriter, r *http.Request) bool { return to(w, r, 307) }
		s.secure.docs = map[string]string{
			"/ok.json":    fine,
			"/via.json":   toJSON(M{"$ref": "ok.json"}),
			"/cross.json": toJSON(M{"$ref": s.other.URL + "/ok.json#/$defs/x"}),
			"/down.json":  toJSON(M{"type": "object", "properties": M{"v": M{"$ref": s.plain.URL + "/secret.json"}}, "required": A{"v"}}),
		}
		s.other.docs = map[string]string{"/ok.json": fine, "/secret.json": sec}
		return s, func() { s.secure.Close(); s.other.Close(); s.plain.Close() }
	}
	hosts := func(list ...*docServer) (out []string) {
		for _, d := range list {
			out = append(out, strings.TrimPrefix(strings.TrimPrefix(d.URL, "https://"), "http://"))
		}
		return
	}
	none := func(s servers) []string { return nil }
	one := func(s servers) []string { return hosts(s.secure) }
	both := func(s servers) []string { return hosts(s.secure, s.other) }
	all := func(s servers) []string { return hosts(s.secure, s.other, s.plain) }
	asURLs := func(s servers) []string { return []string{"example.test", s.other.URL, s.secure.URL} }
	type tlsCase struct {
		name, path string
		hosts      func(s servers) []string
		insecure   bool
		ok         bool
		other      bool // the other secure server may be asked
	}
	list := []tlsCase{
		{"direct", "/ok.json", one, false, true, false},
		{"direct-any", "/ok.json", none, false, true, false},
		{"direct-urls", "/ok.json#/$defs/x", asURLs, false, true, false},
		{"direct-insecure-too", "/ok.json", all, true, true, false},
		{"via", "/via.json", one, false, true, false},
		{"cross", "/cross.json", both, false, true, true},
		{"cross-any", "/cross.json", none, false, true, true},
		{"cross-refused", "/cross.json", one, false, false, false},
		{"redirect", "/other/ok.json", both, false, true, true},
		{"redirect-any", "/other/ok.json", none, false, true, true},
		{"redirects", "/secure/other/secure/ok.json", both, false, true, true},
		{"redirect-refused", "/other/secret.json", one, false, false, false},
		{"redirects-refused", "/secure/secure/other/secret.json", one, false, false, false},
		{"down", "/down.json", all, false, false, false},
		{"down-any", "/down.json", none, false, false, false},
		{"redirect-down", "/plain/secret.json", all, false, false, false},
		{"redirect-down-any", "/plain/secret.json", none, false, false, false},
		{"redirects-down", "/secure/other/plain/secret.json", all, false, false, true},
		{"redirects-down-any", "/other/other/secure/plain/secret.json", none, false, false, true},
		{"redirect-down-host", "/other/plain/secret.json", both, true, false, true},
	}
	cases := []Case{}
	check := func(t *T, s servers, tc tlsCase, schema string) {
		if r := s.plain.requests(); len(r) > 0 {
			t.Violate("forbidden-request", schema, strings.Join(r, " "), "a server that is only reached over http received %d requests although that is not allowed", len(r))
		}
		if r := s.other.requests(); !tc.other && len(r) > 0 {
			t.Violate("forbidden-request", schema, strings.Join(r, " "), "a server that is not allowed received %d requests", len(r))
		}
		t.Count("requests over https", int64(len(s.secure.requests())+len(s.other.requests())))
	}
	for _, tc := range list {
		for _, relative := range []bool{false, true} {
			cases = append(cases, Case{ID: fmt.Sprintf("tls-%s-%v", tc.name, relative), Run: func(t *T) {
				s, stop := start(t.Cfg)
				defer stop()
				opts := &chaff.ParserOptions{DocumentFetchOptions: chaff.DocumentFetchOptions{HTTPFetchOptions: chaff.HTTPFetchOptions{Enabled: true, AllowInsecure: tc.insecure, AllowedHosts: tc.hosts(s)}}}
				schema := toJSON(M{"$ref": s.secure.URL + tc.path})
				if relative {
					schema = toJSON(M{"$ref": strings.TrimPrefix(tc.path, "/")})
					opts.RelativeTo = s.secure.URL + "/root.json"
				}
				g, err := chaff.ParseSchemaString(schema, opts)
				noLeak(t, schema, g, err)
				b, _ := json.Marshal(g.GenerateWithDefaults())
				t.Event("tls", tc.name+string(b))
				if tc.ok && (string(b) != `"fine"` || err != nil || len(metaErrors(g)) > 0) {
					t.Violate("denied", schema, string(b), "an allowed document was not fetched over https: %v %v", err, metaErrors(g))
				}
				if !tc.ok && err == nil && len(metaErrors(g)) == 0 {
					t.Violate("unreported", schema, string(b), "a document that must not be fetched is not reported")
				}
				check(t, s, tc, schema)
			}})
		}
		if tc.hosts(servers{&docServer{Server: &httptest.Server{}}, &docServer{Server: &httptest.Server{}}, &docServer{Server: &httptest.Server{}}}) == nil {
			continue // the command line tool needs a list of hosts
		}
		cases = append(cases, Case{ID: "tls-cli-" + tc.name, Run: func(t *T) {
			s, stop := start(t.Cfg)
			defer stop()
			dir := filepath.Join(t.Cfg.Dir, "tls-cli-"+tc.name)
			os.MkdirAll(dir, 0o755)
			defer os.RemoveAll(dir)
			schema := toJSON(M{"$ref": s.secure.URL + tc.path})
			args := []string{"-allowed-hosts", strings.Join(tc.hosts(s), ",")}
			if tc.insecure {
				args = append(args, "-allow-insecure")
			}
			out, _, _ := runCLI(cli, dir, schema, true, args...)
			t.Event("tls-cli", tc.name+out)
			if strings.Contains(out, secret) {
				t.Violate("leak", schema, out, "the command line tool printed a forbidden document with %v", args)
			}
			if tc.ok && out != `"fine"` {
				t.Violate("denied", schema, out, "the command line tool did not fetch an allowed document over https with %v", args)
			}
			check(t, s, tc, schema)
		}})
	}
	return cases
}
