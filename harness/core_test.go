// Package zzverif replays scenarios against the real go-oidfed code and
// records what can be observed. Nothing is judged here: the observations are
// validated against the TLA+ specification in /verif/spec.
//
// The package is compiled into the module through an overlay, so that it can
// set the transport of the module's http client.
package zzverif

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwk"

	oidfed "github.com/go-oidfed/lib"
	ihttp "github.com/go-oidfed/lib/internal/http"
	"github.com/go-oidfed/lib/jwks"
)

// baseTime is tick 0 of all scenarios; it is later than the real time, since the janitor of the module's cache uses the
// real time
var baseTime = time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC)

func tick(t int) int64 { return baseTime.Unix() + int64(t) }

func sleepUntil(t time.Time) {
	if d := time.Until(t); d > 0 {
		time.Sleep(d)
	}
}
func sleepUntilTick(t int) { sleepUntil(baseTime.Add(time.Duration(t) * time.Second)) }
func nowTick() int         { return int(time.Since(baseTime) / time.Second) }

// ---------------------------------------------------------------- keys

type key struct {
	name string
	priv *ecdsa.PrivateKey
	kid  string
	jwk  map[string]any
}

var (
	keysMu sync.Mutex
	keys   = map[string]*key{}
)

func b64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// getKey returns the key with a name, a new one if there is none
func getKey(name string) *key {
	keysMu.Lock()
	defer keysMu.Unlock()
	if k, ok := keys[name]; ok {
		return k
	}
	p, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	x := p.X.FillBytes(make([]byte, 32))
	y := p.Y.FillBytes(make([]byte, 32))
	thumb := sha256.Sum256([]byte(fmt.Sprintf(`{"crv":"P-256","kty":"EC","x":"%s","y":"%s"}`, b64(x), b64(y))))
	k := &key{name: name, priv: p, kid: b64(thumb[:])}
	k.jwk = map[string]any{
		"kty": "EC", "crv": "P-256", "x": b64(x), "y": b64(y), "alg": "ES256", "use": "sig", "kid": k.kid,
	}
	keys[name] = k
	return k
}

func jwksJSON(names []string) map[string]any {
	ks := make([]any, 0, len(names))
	for _, n := range names {
		ks = append(ks, getKey(n).jwk)
	}
	return map[string]any{"keys": ks}
}

func jwksOf(names []string) jwks.JWKS {
	data, err := json.Marshal(jwksJSON(names))
	if err != nil {
		panic(err)
	}
	set := jwk.NewSet()
	if err = json.Unmarshal(data, set); err != nil {
		panic(err)
	}
	return jwks.JWKS{Set: set}
}

// ---------------------------------------------------------------- jwts

func es256(k *key, signingInput string) []byte {
	h := sha256.Sum256([]byte(signingInput))
	r, s, err := ecdsa.Sign(rand.Reader, k.priv, h[:])
	if err != nil {
		panic(err)
	}
	return append(r.FillBytes(make([]byte, 32)), s.FillBytes(make([]byte, 32))...)
}

func mustJSON(v any) []byte {
	d, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return d
}

// makeJWT creates a compact jwt; sig is the way it is (or is not) signed; the key kForger is never published
func makeJWT(payload map[string]any, typ, signer, sig string) string {
	k := getKey(signer)
	head := map[string]any{"alg": "ES256", "kid": k.kid}
	if typ != "" {
		head["typ"] = typ
	}
	body := mustJSON(payload)
	switch sig {
	case "ok":
	case "kidspoof":
		// signed by somebody else, but announcing the id of the right key
		k = getKey("kForger")
	case "nokid":
		delete(head, "kid")
	case "jwkheader":
		// the attacker's key is part of the header
		k = getKey("kForger")
		head["jwk"] = k.jwk
	case "none":
		head["alg"] = "none"
		return b64(mustJSON(head)) + "." + b64(body) + "."
	case "hmac":
		head["alg"] = "HS256"
		in := b64(mustJSON(head)) + "." + b64(body)
		m := hmac.New(sha256.New, mustJSON(k.jwk))
		m.Write([]byte(in))
		return in + "." + b64(m.Sum(nil))
	case "tampered":
		other := map[string]any{}
		for kk, v := range payload {
			other[kk] = v
		}
		other["tampered"] = true
		in := b64(mustJSON(head)) + "." + b64(mustJSON(other))
		return b64(mustJSON(head)) + "." + b64(body) + "." + b64(es256(k, in))
	default:
		panic("unknown signature kind " + sig)
	}
	in := b64(mustJSON(head)) + "." + b64(body)
	return in + "." + b64(es256(k, in))
}

// ---------------------------------------------------------------- worlds

type nameConstraint struct {
	Dot    bool     `json:"dot"`
	Labels []string `json:"labels"`
}
type constraints struct {
	MPL      int              `json:"mpl"`
	HasPerm  bool             `json:"hasPerm"`
	Perm     []nameConstraint `json:"perm"`
	Excl     []nameConstraint `json:"excl"`
	HasTypes bool             `json:"hasTypes"`
	Types    []string         `json:"types"`
}
type stmt struct {
	SID    int         `json:"sid"`
	Iss    string      `json:"iss"`
	Sub    string      `json:"sub"`
	Iat    int         `json:"iat"`
	Exp    int         `json:"exp"`
	Keys   []string    `json:"keys"`
	Signer string      `json:"signer"`
	Sig    string      `json:"sig"`
	Typ    string      `json:"typ"`
	Hints  []string    `json:"hints"`
	Types  []string    `json:"types"`
	Fetch  string      `json:"fetch"`
	Con    constraints `json:"con"`
	Pol    string      `json:"pol"`
	// trust marks; only used by some families
	TMI   []tmIssuers `json:"tmi"`
	TMO   []tmOwner   `json:"tmo"`
	Marks []pubMark   `json:"marks"`
	// where subordinates are listed, and the metadata, policies and critical operators; only used by some families
	ListAt string    `json:"listat"`
	MD     pmetadata `json:"md"`
	MPol   ppolicies `json:"mpol"`
	Crit   []string  `json:"crit"`
	// where the resolve and the collection endpoint are
	ResolveAt string `json:"resolveat"`
	CollectAt string `json:"collectat"`
	// Claims are merged into the payload as they are; they are not part of the specification's view
	Claims map[string]any `json:"claims"`
}
type sub struct {
	Resp string `json:"resp"`
	Stmt stmt   `json:"stmt"`
}
type subMap map[string]sub

// UnmarshalJSON also accepts the empty function of TLA+, which is an empty sequence
func (m *subMap) UnmarshalJSON(d []byte) error {
	if len(d) > 0 && d[0] == '[' {
		*m = subMap{}
		return nil
	}
	x := map[string]sub{}
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	*m = x
	return nil
}

type entity struct {
	Host []string `json:"host"`
	Port string   `json:"port"`
	Resp string   `json:"resp"`
	EC   stmt     `json:"ec"`
	Subs subMap   `json:"subs"`
	// the rest is only used by some families
	ListResp string   `json:"listresp"`
	List     []string `json:"list"`
}
type worldSpec struct {
	Now  int               `json:"now"`
	Ents map[string]entity `json:"ents"`
}
type anchorSpec struct {
	ID   string   `json:"id"`
	Pin  bool     `json:"pin"`
	Keys []string `json:"keys"`
}
type reqSpec struct {
	Start   string       `json:"start"`
	Types   []string     `json:"types"`
	Anchors []anchorSpec `json:"anchors"`
}

// world is an instance of a worldSpec; its entities have ids that no other world uses
type world struct {
	worldSpec
	id string
	mu sync.Mutex
	// what was served: raw jwt -> sid
	sids  map[string]int
	jwts  map[int]string
	marks map[int]string
	// requests in the order they came in
	log []string
	// handler might overwrite what a path of an entity answers
	handler func(name, path string, q url.Values, r *http.Request) (int, string, string, bool)
	// latency might delay answers
	latency func(name, path string, r *http.Request) time.Duration
}

var (
	worldsMu sync.Mutex
	worlds   = map[string]*world{}
	worldN   int
)

func newWorld(spec worldSpec) *world {
	worldsMu.Lock()
	defer worldsMu.Unlock()
	worldN++
	w := &world{worldSpec: spec, id: "w" + strconv.Itoa(worldN), sids: map[string]int{}, jwts: map[int]string{}, marks: map[int]string{}}
	worlds[w.id] = w
	return w
}
func (w *world) close() {
	worldsMu.Lock()
	defer worldsMu.Unlock()
	delete(worlds, w.id)
}

func (w *world) hostOf(name string) string {
	if e, ok := w.Ents[name]; ok && len(e.Host) > 0 {
		return strings.Join(e.Host, ".") + e.Port
	}
	return strings.ToLower(name) + ".unknown.test"
}

// idVariants are identifiers that are similar to the one of an entity, but different; in the specification the names of
// these (e.g. "E1~slash") are those of entities that do not exist
var idVariants = map[string]func(scheme, host, path string) string{
	"slash": func(s, h, p string) string { return s + h + p + "/" },
	"http":  func(_, h, p string) string { return "http://" + h + p },
	"upper": func(s, h, p string) string { return s + strings.ToUpper(h) + p },
	"frag":  func(s, h, p string) string { return s + h + p + "#x" },
	"query": func(s, h, p string) string { return s + h + p + "?x=y" },
	"pct":   func(s, h, p string) string { return s + h + p[:len(p)-1] + fmt.Sprintf("%%%02X", p[len(p)-1]) },
	"port":  func(s, h, p string) string { return s + h + ":443" + p },
	"user":  func(s, h, p string) string { return s + "u@" + h + p },
}

// eid returns the entity id for a name
func (w *world) eid(name string) string {
	base, variant, found := strings.Cut(name, "~")
	host, path := w.hostOf(base), "/"+w.id+"/"+base
	if !found {
		return "https://" + host + path
	}
	return idVariants[variant]("https://", host, path)
}

// name returns the name for an entity id
func (w *world) name(eid string) string {
	u, err := url.Parse(eid)
	if err != nil {
		return "?" + eid
	}
	parts := strings.Split(strings.Trim(u.Path, "/"), "/")
	if len(parts) != 2 || parts[0] != w.id {
		return "?" + eid
	}
	if w.eid(parts[1]) == eid {
		return parts[1]
	}
	for v := range idVariants {
		if n := parts[1] + "~" + v; w.eid(n) == eid {
			return n
		}
	}
	return "?" + eid
}
func (w *world) eids(names []string) []string {
	out := make([]string, 0, len(names))
	for _, n := range names {
		out = append(out, w.eid(n))
	}
	return out
}

func (w *world) setStmt(e string, f func(*entity)) {
	w.mu.Lock()
	defer w.mu.Unlock()
	x := w.Ents[e]
	f(&x)
	w.Ents[e] = x
}

func nameConstraints(ns []nameConstraint) []string {
	out := make([]string, 0, len(ns))
	for _, n := range ns {
		s := strings.Join(n.Labels, ".")
		if n.Dot {
			s = "." + s
		}
		out = append(out, s)
	}
	return out
}

var typHeaders = map[string]string{
	"es": "entity-statement+jwt",
	"tm": "trust-mark+jwt",
	"td": "trust-mark-delegation+jwt",
	"rr": "resolve-response+jwt",
	"ro": "oauth-authz-req+jwt",
	"ca": "JWT",
	"no": "",
}

func typHeader(t string) string {
	if h, ok := typHeaders[t]; ok {
		return h
	}
	return t
}

// metadataOf gives an entity metadata for the types
func (w *world) metadataOf(st stmt) map[string]any {
	md := map[string]any{}
	full := metadataJSON(st.MD)
	for _, t := range st.Types {
		m := map[string]any{"organization_name": "org " + st.Sub}
		if x, ok := full[t].(map[string]any); ok {
			m = x
		}
		if t == "federation_entity" {
			if st.Fetch != "" {
				m["federation_fetch_endpoint"] = w.eid(st.Fetch) + "/fetch"
			}
			if st.ListAt != "" {
				m["federation_list_endpoint"] = w.eid(st.ListAt) + "/list"
			}
			if st.ResolveAt != "" {
				m["federation_resolve_endpoint"] = w.eid(st.ResolveAt) + "/resolve"
			}
			if st.CollectAt != "" {
				m["federation_collection_endpoint"] = w.eid(st.CollectAt) + "/collect"
			}
		}
		md[t] = m
	}
	return md
}

// payload builds the claims of a statement
func (w *world) payload(st stmt) map[string]any {
	p := map[string]any{"iss": w.eid(st.Iss), "sub": w.eid(st.Sub), "iat": tick(st.Iat), "stmt_id": st.SID}
	if st.Exp != 0 {
		p["exp"] = tick(st.Exp)
	}
	if len(st.Keys) > 0 {
		p["jwks"] = jwksJSON(st.Keys)
	}
	if len(st.Hints) > 0 {
		p["authority_hints"] = w.eids(st.Hints)
	}
	if len(st.Types) > 0 {
		p["metadata"] = w.metadataOf(st)
	}
	con := map[string]any{}
	if st.Con.MPL >= 0 {
		con["max_path_length"] = st.Con.MPL
	}
	if st.Con.HasPerm || len(st.Con.Excl) > 0 {
		nc := map[string]any{}
		if st.Con.HasPerm {
			nc["permitted"] = nameConstraints(st.Con.Perm)
		}
		if len(st.Con.Excl) > 0 {
			nc["excluded"] = nameConstraints(st.Con.Excl)
		}
		con["naming_constraints"] = nc
	}
	if st.Con.HasTypes {
		con["allowed_entity_types"] = append([]string{}, st.Con.Types...)
	}
	if len(con) > 0 {
		p["constraints"] = con
	}
	switch st.Pol {
	case "ok":
		p["metadata_policy"] = map[string]any{
			"openid_provider": map[string]any{"contacts": map[string]any{"add": []string{"ops@" + w.hostOf(st.Iss)}}},
		}
	case "bad":
		p["metadata_policy"] = map[string]any{
			"openid_provider": map[string]any{
				"organization_name": map[string]any{"one_of": []string{"a", "b"}, "subset_of": []string{"a"}},
			},
		}
	}
	if len(st.MPol) > 0 {
		p["metadata_policy"] = policiesJSON(st.MPol)
	}
	if len(st.Crit) > 0 {
		p["metadata_policy_crit"] = append([]string{}, st.Crit...)
	}
	w.trustMarkClaims(st, p)
	for k, v := range st.Claims {
		if v == nil {
			delete(p, k)
			continue
		}
		p[k] = v
	}
	return p
}

// jwt returns the signed statement, always the same one as long as the statement has the same id
func (w *world) jwt(st stmt) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if j, ok := w.jwts[st.SID]; ok {
		return j
	}
	j := makeJWT(w.payload(st), typHeader(st.Typ), st.Signer, st.Sig)
	w.jwts[st.SID] = j
	w.sids[j] = st.SID
	return j
}

// sidOf returns the id of the statement with a raw jwt
func (w *world) sidOf(raw []byte) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if s, ok := w.sids[string(raw)]; ok {
		return s
	}
	return -1
}

const ctES = "application/entity-statement+jwt"

func (w *world) answer(resp string, st stmt) (int, string, string) {
	switch resp {
	case "ok":
		return 200, ctES, w.jwt(st)
	case "notfound":
		return 404, "application/json", `{"error":"not_found","error_description":"no such entity"}`
	case "errjson":
		return 200, "application/json", `{"error":"server_error"}`
	case "garbage":
		return 200, ctES, "this is not a jwt"
	}
	if strings.HasPrefix(resp, "hostile") {
		n, err := strconv.Atoi(strings.TrimPrefix(resp, "hostile"))
		if err != nil {
			panic(err)
		}
		return hostile(n, func(mod func(map[string]any)) string {
			p := w.payload(st)
			mod(p)
			return makeJWT(p, typHeader(st.Typ), st.Signer, "ok")
		}, w.jwt(st))
	}
	panic("unknown response kind " + resp)
}

// the requests the http client of the module makes are answered by the worlds
type transport struct{}

var errUnreachable = fmt.Errorf("host is not reachable")

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	parts := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 3)
	status, ct, body := 404, "text/plain", "not here"
	if len(parts) == 3 {
		worldsMu.Lock()
		w := worlds[parts[0]]
		worldsMu.Unlock()
		if w != nil {
			var err error
			status, ct, body, err = w.serve(r.URL.Host, parts[1], parts[2], r)
			if err != nil {
				return nil, err
			}
		}
	}
	h := http.Header{}
	h.Set("Content-Type", ct)
	return &http.Response{
		StatusCode: status, Status: strconv.Itoa(status) + " " + http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: r,
	}, nil
}

func (w *world) serve(host, name, path string, r *http.Request) (int, string, string, error) {
	w.mu.Lock()
	e, ok := w.Ents[name]
	handler, latency := w.handler, w.latency
	w.mu.Unlock()
	if latency != nil {
		time.Sleep(latency(name, path, r))
	}
	q := r.URL.Query()
	if handler != nil {
		if s, ct, b, done := handler(name, path, q, r); done {
			if s == 0 {
				return 0, "", "", errUnreachable
			}
			return s, ct, b, nil
		}
	}
	w.mu.Lock()
	entry := name + " " + path
	if s := q.Get("sub"); s != "" {
		entry += " " + w.name(s)
	}
	w.log = append(w.log, entry)
	w.mu.Unlock()
	if !ok || !strings.EqualFold(w.hostOf(name), strings.TrimSuffix(host, ":443")) {
		return 404, "text/plain", "no such host", nil
	}
	switch path {
	case ".well-known/openid-federation":
		s, ct, b := w.answer(e.Resp, e.EC)
		return s, ct, b, nil
	case "fetch":
		o, ok := e.Subs[w.name(q.Get("sub"))]
		if !ok {
			return 404, "application/json", `{"error":"not_found"}`, nil
		}
		s, ct, b := w.answer(o.Resp, o.Stmt)
		return s, ct, b, nil
	case "list":
		switch e.ListResp {
		case "", "ok":
			return 200, "application/json", string(mustJSON(w.eids(e.List))), nil
		case "notfound":
			return 404, "application/json", `{"error":"not_found"}`, nil
		case "garbage":
			return 200, "application/json", "<html>", nil
		case "servererror":
			return 500, "text/html", "oops", nil
		}
	}
	return 404, "text/plain", "nothing here", nil
}

// ---------------------------------------------------------------- running

func (w *world) anchors(as []anchorSpec) (out oidfed.TrustAnchors) {
	for _, a := range as {
		ta := oidfed.TrustAnchor{EntityID: w.eid(a.ID)}
		if a.Pin {
			ta.JWKS = jwksOf(a.Keys)
		}
		out = append(out, ta)
	}
	return
}

// chainSIDs represents chains by the ids of their statements; always a list of lists
func (w *world) chainSIDs(cs oidfed.TrustChains) [][]int {
	out := make([][]int, 0, len(cs))
	for _, c := range cs {
		ids := make([]int, 0, len(c))
		for _, m := range c.Messages() {
			if m == nil {
				ids = append(ids, -2)
				continue
			}
			ids = append(ids, w.sidOf(m.RawJWT))
		}
		out = append(out, ids)
	}
	return out
}

// guarded runs f and returns the panic it ended with, or ""
func guarded(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("%v", r)
			if os.Getenv("VERIF_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	return ""
}

// runScenarios reads scenarios from $VERIF_IN and writes a result for each of them to $VERIF_OUT, preceded by a marker,
// so that it is known which one was running if the process dies.
func runScenarios(t *testing.T, f func(t *testing.T, raw []byte) any) {
	in, err := os.Open(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	defer in.Close()
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	from, _ := strconv.Atoi(os.Getenv("VERIF_FROM"))
	ihttp.Do().SetTransport(transport{})
	rd := bufio.NewReaderSize(in, 1<<20)
	for i := 0; ; i++ {
		line, err := rd.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) > 0 && i >= from {
			fmt.Fprintf(out, "{\"begin\":%d}\n", i)
			res := f(t, line)
			fmt.Fprintf(out, "{\"i\":%d,\"res\":%s}\n", i, mustJSON(res))
		}
		if err != nil {
			break
		}
	}
	fmt.Fprintf(out, "{\"end\":true}\n")
}

// inBubble runs f with a fake clock that starts at a tick
func inBubble(t *testing.T, start int, f func(t *testing.T)) {
	synctest.Test(t, func(t *testing.T) {
		sleepUntilTick(start)
		f(t)
	})
}
