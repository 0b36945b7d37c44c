package zzverif

import (
	"strings"
)

// hostileN is the number of hostile answers
const hostileN = 40

// hostile gives answers that are no well-formed entity statement; with makes a correctly signed jwt with modified
// claims, good is the correct one
func hostile(n int, with func(func(map[string]any)) string, good string) (int, string, string) {
	set := func(k string, v any) string { return with(func(p map[string]any) { p[k] = v }) }
	md := func(v any) string {
		return with(func(p map[string]any) { p["metadata"] = map[string]any{"federation_entity": v} })
	}
	parts := strings.Split(good, ".")
	bodies := []string{
		"",
		"null",
		"[]",
		"{}",
		"..",
		"a.b.c",
		parts[0] + "." + parts[1],
		parts[0] + "." + parts[1] + ".",
		parts[0] + ".." + parts[2],
		"." + parts[1] + "." + parts[2],
		parts[0] + "." + b64([]byte("null")) + "." + parts[2],
		parts[0] + "." + b64([]byte("[]")) + "." + parts[2],
		parts[0] + "." + b64([]byte("\"x\"")) + "." + parts[2],
		parts[0] + "." + b64([]byte("{")) + "." + parts[2],
		parts[0] + "." + b64([]byte(strings.Repeat("[", 100000))) + "." + parts[2],
		b64([]byte("null")) + "." + parts[1] + "." + parts[2],
		b64([]byte("{}")) + "." + parts[1] + "." + parts[2],
		good + "." + good,
		`{"payload":"` + parts[1] + `"}`,
		`{"payload":"` + parts[1] + `","signatures":[]}`,
		`{"payload":"` + parts[1] + `","signatures":null}`,
		`{"payload":"` + parts[1] + `","signatures":[null]}`,
		`{"payload":"` + parts[1] + `","signatures":[{}]}`,
		`{"payload":"` + parts[1] + `","signatures":[{"signature":"AA"}]}`,
		`{"payload":"` + parts[1] + `","signatures":[{"header":{"typ":"entity-statement+jwt"},"signature":"AA"}]}`,
		`{"payload":null,"protected":"` + parts[0] + `","signature":"` + parts[2] + `"}`,
		`{"protected":"` + parts[0] + `","signature":"` + parts[2] + `"}`,
		set("iss", 5),
		set("iat", "yesterday"),
		set("exp", map[string]any{}),
		set("jwks", "keys"),
		set("jwks", map[string]any{"keys": []any{map[string]any{"kty": "EC"}}}),
		set("authority_hints", "https://example.org"),
		set("metadata", []any{1}),
		md("text"),
		md(map[string]any{"federation_fetch_endpoint": 5}),
		set("metadata_policy", []any{}),
		set("constraints", "none"),
		set("constraints", map[string]any{"max_path_length": "0"}),
		set("constraints", map[string]any{"naming_constraints": []any{}}),
	}
	if n < 0 {
		return 0, "", string(rune(len(bodies)))
	}
	return 200, ctES, bodies[n%len(bodies)]
}
