package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	js "github.com/santhosh-tekuri/jsonschema/v6"
)

// V21: the command line tool.

func cliCases(cfg Cfg) []Case {
	exe := filepath.Join(os.Getenv("VH_BUILD"), "chaff")
	cases := []Case{}
	add := func(id string, f func(t *T, dir string)) {
		cases = append(cases, Case{ID: id, Run: func(t *T) {
			dir, err := os.MkdirTemp(t.Cfg.Dir, "cli")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			f(t, dir)
		}})
	}
	// one JSON value and nothing else
	checkValue := func(t *T, schema, out string, oracle *js.Schema, formatted bool) bool {
		var v any
		d := json.NewDecoder(strings.NewReader(out))
		d.UseNumber()
		if err := d.Decode(&v); err != nil {
			t.Violate("output", schema, out, "the output is no JSON: %v", err)
			return false
		}
		if strings.TrimSpace(out[d.InputOffset():]) != "" {
			t.Violate("output", schema, out, "there is more than one JSON value in the output")
			return false
		}
		var b bytes.Buffer
		if formatted {
			json.Indent(&b, []byte(out), "", "    ")
		} else {
			json.Compact(&b, []byte(out))
		}
		if strings.TrimSpace(out) != b.String() {
			t.Violate("output", schema, out, "the layout of the output is not the one asked for (formatted: %v)", formatted)
			return false
		}
		if oracle != nil {
			if err := oracle.Validate(decode([]byte(out))); err != nil {
				t.Violate("invalid", schema, out, "the output does not validate: %v", err)
				return false
			}
		}
		return true
	}
	for i := range cfg.Scale(150, 4000) {
		add(fmt.Sprintf("generate-%04d", i), func(t *T, dir string) {
			g := newSG(t.Rng)
			schema := toJSON(g.Root(g.Schema(2)))
			oracle, err := compileOracle(schema, "", nil)
			if err != nil {
				panic(err)
			}
			file := filepath.Join(dir, "schema with space.json")
			os.WriteFile(file, []byte(schema), 0o644)
			for n := range 3 {
				args := []string{"-cutoff-generation-steps", "100000"}
				formatted := t.Rng.Intn(2) == 0
				if formatted {
					args = append(args, "-format")
				}
				if t.Rng.Intn(3) == 0 {
					args = append(args, "-maximum-oneof-attempts=200", "-maximum-if-attempts=200", "-maximum-reference-depth=12", "-maximum-generation-steps=500")
				}
				stdin, useStdin := "", false
				switch t.Rng.Intn(3) {
				case 0:
					stdin, useStdin = schema, true
				case 1:
					args = append(args, "-file", file)
				case 2: // the file counts
					args = append(args, "--file="+pick(t.Rng, file, "schema with space.json", "./schema with space.json"))
					stdin, useStdin = `{"const":"from stdin"}`, true
				}
				target := ""
				if t.Rng.Intn(2) == 0 {
					target = filepath.Join(dir, fmt.Sprintf("out %d", n))
					args = append(args, "-output", target)
				}
				out, stderr, code := runCLI(exe, dir, stdin, useStdin, args...)
				if code != 0 || stderr != "" {
					t.Violate("failed", schema, stderr, "exit code %d for a satisfiable schema (%q)", code, args)
					return
				}
				if target != "" {
					if out != "" {
						t.Violate("output", schema, out, "something is printed although the output goes to a file")
					}
					b, err := os.ReadFile(target)
					if err != nil {
						t.Violate("output", schema, "", "the output file is missing: %v", err)
						return
					}
					out = string(b)
				}
				if !checkValue(t, schema, out, oracle, formatted) {
					return
				}
				t.Event("outputs", fmt.Sprint(args, out))
				t.Sample(strings.Join(args, " "), out)
			}
		})
	}
	// nothing that exists is overwritten, failures leave nothing behind
	for i := range cfg.Scale(40, 400) {
		add(fmt.Sprintf("files-%03d", i), func(t *T, dir string) {
			existing := filepath.Join(dir, "existing")
			content := pick(t.Rng, "precious", "", "{}")
			os.WriteFile(existing, []byte(content), 0o600)
			os.Symlink("existing", filepath.Join(dir, "link"))
			os.Mkdir(filepath.Join(dir, "folder"), 0o755)
			schema := `{"type":"object","properties":{"a":{"type":"integer"}},"required":["a"]}`
			for _, target := range []string{"existing", "./existing", existing, "link", "folder", "folder/", "missing/out", "existing/out"} {
				if t.Rng.Intn(2) == 0 {
					continue
				}
				out, stderr, code := runCLI(exe, dir, schema, true, "-output", target)
				t.Event("refusals", fmt.Sprint(target, code, stderr != ""))
				if code == 0 || stderr == "" {
					t.Violate("overwrite", target, stderr, "no failure is reported for the output %q (exit code %d)", target, code)
				}
				if out != "" {
					t.Violate("output", target, out, "a value is printed although the output can not be written")
				}
				if b, _ := os.ReadFile(existing); string(b) != content {
					t.Violate("overwrite", target, string(b), "an existing file was overwritten")
				}
			}
			for k, bad := range []string{"", "{", "[]", `{"type":"string"} x`, `"x"`, "3", `{"properties":3}`, `{"type":"string","pattern":"("}`, `{"type":"integer","minimum":5,"maximum":1}`, `{"type":"array","minItems":5,"maxItems":1}`} {
				if t.Rng.Intn(2) == 0 {
					continue
				}
				args := []string{}
				target := fmt.Sprintf("never%d", k)
				if t.Rng.Intn(2) == 0 {
					args = append(args, "-output", target)
				}
				if t.Rng.Intn(3) == 0 {
					args = append(args, "-verbose")
				}
				stdin, useStdin := bad, true
				if t.Rng.Intn(2) == 0 {
					os.WriteFile(filepath.Join(dir, "bad.json"), []byte(bad), 0o644)
					args = append(args, "-file", "bad.json")
					stdin, useStdin = "", false
				}
				out, stderr, code := runCLI(exe, dir, stdin, useStdin, args...)
				t.Event("faulty schemas", fmt.Sprint(bad, args, code))
				if code != 1 || stderr == "" || strings.Contains(stderr, "panic:") || strings.Contains(stderr, "goroutine ") {
					t.Violate("failure", bad, stderr, "exit code %d with an error text of %d bytes for a faulty schema", code, len(stderr))
				}
				if out != "" {
					t.Violate("output", bad, out, "something is printed for a faulty schema")
				}
				if _, err := os.Stat(filepath.Join(dir, target)); err == nil {
					t.Violate("output", bad, "", "an output file is left behind for a faulty schema")
				}
			}
			if out, stderr, code := runCLI(exe, dir, "", false, "-file", "nosuch.json"); code != 1 || stderr == "" || out != "" {
				t.Violate("failure", "nosuch.json", stderr+out, "exit code %d for a schema file that is missing", code)
			}
			if out, stderr, code := runCLI(exe, dir, "", false); code != 1 || stderr == "" || out != "" {
				t.Violate("failure", "", stderr+out, "exit code %d without any schema", code)
			}
			if out, stderr, code := runCLI(exe, dir, schema, true, "-no-such-flag"); code == 0 || stderr == "" || out != "" {
				t.Violate("failure", "-no-such-flag", stderr+out, "exit code %d for an unknown flag", code)
			}
			if out, stderr, code := runCLI(exe, dir, schema, true, "-maximum-reference-depth", "many"); code == 0 || stderr == "" || out != "" {
				t.Violate("failure", "-maximum-reference-depth many", stderr+out, "exit code %d for a flag that is no number", code)
			}
		})
	}
	// the flags
	flags := []string{"allow-insecure", "allow-outside-cwd", "allowed-hosts", "allowed-paths", "bypass-cyclic-reference-check", "cutoff-generation-steps", "file", "format", "help", "maximum-generation-steps", "maximum-if-attempts", "maximum-oneof-attempts", "maximum-reference-depth", "output", "verbose", "version"}
	add("help", func(t *T, dir string) {
		for _, stdin := range []bool{true, false} {
			out, stderr, code := runCLI(exe, dir, "{", stdin, "-help")
			if code != 0 {
				t.Violate("failure", "-help", out+stderr, "exit code %d", code)
			}
			for _, f := range flags {
				if !strings.Contains(out+stderr, "-"+f) {
					t.Violate("help", "-help", out+stderr, "the flag -%s is not described", f)
				}
			}
			out, _, code = runCLI(exe, dir, "{", stdin, "-version")
			if code != 0 || !strings.Contains(out, "Version") {
				t.Violate("help", "-version", out, "exit code %d", code)
			}
			t.Event("help", fmt.Sprint(stdin))
		}
	})
	for i := range cfg.Scale(12, 100) {
		add(fmt.Sprintf("flags-%03d", i), func(t *T, dir string) {
			chain := `{"type":"object","required":["n"],"properties":{"n":{"$ref":"#"}}}`
			for _, d := range []int{1, 3, 10, 40} {
				args := []string{"-bypass-cyclic-reference-check", fmt.Sprintf("-maximum-reference-depth=%d", d)}
				if d == 10 {
					args = args[:1]
				}
				out, stderr, code := runCLI(exe, dir, chain, true, args...)
				if code != 0 || stderr != "" {
					t.Violate("failure", chain, stderr, "exit code %d for %q", code, args)
					continue
				}
				_, depth := countNodes(decode([]byte(out)))
				t.Event("flags", fmt.Sprint(args, depth))
				if depth < d-1 || depth > d+4 {
					t.Violate("flags", chain, out, "%q gives a value that is %d levels deep", args, depth)
				}
			}
			out, _, _ := runCLI(exe, dir, chain, true, "-maximum-reference-depth=40")
			if _, depth := countNodes(decode([]byte(out))); depth > 6 {
				t.Violate("flags", chain, out, "cyclic references are resolved although that was not asked for")
			}
			// steps
			big := `{"type":"array","minItems":3,"prefixItems":[{"type":"array","minItems":60,"maxItems":60,"items":{"type":"integer"}},{"type":"array","minItems":1,"maxItems":30,"items":{"type":"integer"}},{"type":"array","minItems":1,"maxItems":30,"items":{"type":"integer"}}],"items":false}`
			total := 0
			for n := range 6 {
				steps := pick(t.Rng, 1, 20, 50)
				if n >= 3 {
					steps = 500
				}
				out, stderr, code := runCLI(exe, dir, big, true, fmt.Sprintf("-maximum-generation-steps=%d", steps))
				a, _ := decode([]byte(out + " ")).([]any)
				if code != 0 || len(a) != 3 {
					t.Violate("failure", big, out+stderr, "exit code %d", code)
					return
				}
				size := sizeOf(a[1]) + sizeOf(a[2])
				t.Event("flags", fmt.Sprint(steps, size))
				if n < 3 && size != 2 {
					t.Violate("flags", big, out, "more than the minimum is generated past %d steps", steps)
				}
				if n >= 3 {
					total += size
				}
			}
			if total <= 6 {
				t.Violate("flags", big, fmt.Sprint(total), "only the minimum is generated below the maximum number of steps")
			}
			deep := `{"type":"array","minItems":9,"items":{"type":"array","minItems":9,"items":{"type":"array","minItems":9,"items":{"type":"array","minItems":9,"items":{"type":"integer"}}}}}`
			for _, cutoff := range []int{20, 300, 0} {
				args := []string{}
				if cutoff > 0 {
					args = append(args, "-cutoff-generation-steps", fmt.Sprint(cutoff))
				}
				out, _, _ := runCLI(exe, dir, deep, true, args...)
				nodes, _ := countNodes(decode([]byte(out)))
				if cutoff == 0 {
					cutoff = 2000
				}
				t.Event("flags", fmt.Sprint(cutoff, nodes))
				if nodes > cutoff*3+100 || nodes < min(cutoff/2, 300) {
					t.Violate("flags", deep, "", "%d values with a cutoff of %d", nodes, cutoff)
				}
			}
			// detailed information
			faulty := `{"type":"object","required":["a","b"],"properties":{"a":{"type":"string","pattern":"("},"b":{"type":"integer","minimum":9,"maximum":1},"c":{"$ref":"#/$defs/nosuch"}}}`
			out, stderr, code := runCLI(exe, dir, faulty, true, "-verbose")
			for _, want := range []string{"properties/a", "properties/b", "nosuch"} {
				if code == 0 && !strings.Contains(out+stderr, want) {
					t.Violate("verbose", faulty, out+stderr, "%s is not reported", want)
				}
			}
			if code != 0 && stderr == "" {
				t.Violate("verbose", faulty, out, "exit code %d without a text", code)
			}
			good := `{"type":"object","required":["a"],"properties":{"a":{"const":"marker 1"}},"additionalProperties":false}`
			out, _, code = runCLI(exe, dir, good, true, "-verbose")
			if code != 0 || !regexp.MustCompile(`(?s)\{"a":"marker 1"\}\s*$`).MatchString(out) || strings.Contains(out, "failed to fully compile") {
				t.Violate("verbose", good, out, "exit code %d, or the value is not the end of the output, or errors are reported for a correct schema", code)
			}
		})
	}
	// what is hard to satisfy is satisfied with enough attempts of its own kind
	for i := range cfg.Scale(10, 100) {
		add(fmt.Sprintf("attempts-%03d", i), func(t *T, dir string) {
			top := 20 + t.Rng.Intn(40)
			for flag, hard := range map[string]string{
				"oneof-attempts": fmt.Sprintf(`{"oneOf":[{"type":"integer","minimum":0,"maximum":%d},{"type":"integer","minimum":0,"maximum":%d}]}`, top, top-1),
				"if-attempts":    fmt.Sprintf(`{"type":"integer","minimum":0,"maximum":%d,"if":{"minimum":1},"then":{"const":0}}`, top),
			} {
				args := []string{"-maximum-generation-steps=200000", "-cutoff-generation-steps=400000"}
				other := map[string]string{"oneof-attempts": "if-attempts", "if-attempts": "oneof-attempts"}[flag]
				args = append(args, "-maximum-"+other+"=1", "-maximum-"+flag+"=8000")
				out, stderr, code := runCLI(exe, dir, hard, true, args...)
				t.Event("attempts", fmt.Sprint(flag, top, out))
				if code != 0 || findMarker(decode([]byte(out+" "))) != "" {
					t.Violate("flags", hard, out+stderr, "exit code %d, or nothing valid with 8000 attempts (%q)", code, args)
				}
			}
		})
	}
	// whatever the schema, the tool ends in an orderly way
	for i := range cfg.Scale(120, 3000) {
		add(fmt.Sprintf("hostile-%04d", i), func(t *T, dir string) {
			text := mutateText(t.Rng)
			if t.Rng.Intn(2) == 0 {
				g := newSG(t.Rng)
				text = toJSON(tame(mutateSchema(t.Rng, g.Root(g.Schema(1)))))
			}
			args := []string{}
			if t.Rng.Intn(3) == 0 {
				args = append(args, "-verbose")
			}
			out, stderr, code := runCLI(exe, dir, text, true, args...)
			t.Event("outcomes", fmt.Sprint(code, clip(text, 200)))
			switch {
			case code != 0 && code != 1 || strings.Contains(stderr, "goroutine "):
				t.Violate("crash", text, stderr, "exit code %d", code)
			case code == 1 && stderr == "":
				t.Violate("failure", text, out, "failure without a text")
			case code == 0 && len(args) == 0:
				checkValue(t, text, out, nil, false)
			}
			if !json.Valid([]byte(text)) && code == 0 {
				t.Violate("accepted", text, out, "a text that is no JSON is accepted")
			}
		})
	}
	wideTool(cfg, exe, add)
	return cases
}

func init() {
	register(Check{Prop: "V21", Rule: "a run of the command line tool (distinct by arguments and output)", Cases: cliCases})
}
