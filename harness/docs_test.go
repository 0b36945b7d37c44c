package zzverif

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"reflect"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
	"github.com/vmihailenco/msgpack/v5"
	"gopkg.in/yaml.v3"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/cache"
)

// newDocument returns a pointer to an empty document
func newDocument(t string) any {
	switch t {
	case "statement":
		return &oidfed.EntityStatementPayload{}
	case "metadata":
		return &oidfed.Metadata{}
	case "metadata_policy":
		return &oidfed.MetadataPolicies{}
	case "constraints":
		return &oidfed.ConstraintSpecification{}
	case "naming":
		return &oidfed.NamingConstraints{}
	case "owner":
		return &oidfed.TrustMarkOwnerSpec{}
	case "trust_mark":
		return &oidfed.TrustMark{}
	case "delegation":
		return &oidfed.DelegationJWT{}
	case "info":
		return &oidfed.TrustMarkInfo{}
	case "spec":
		return &oidfed.TrustMarkSpec{}
	case "resolve_response":
		return &oidfed.ResolveResponse{}
	case "ui_info":
		return &oidfed.UIInfo{}
	case "collected_entity":
		return &oidfed.CollectedEntity{}
	case "collection_response":
		return &oidfed.EntityCollectionResponse{}
	case "single":
		return &oidfed.SliceOrSingleValue[string]{}
	case "federation_entity":
		return &oidfed.FederationEntityMetadata{}
	case "openid_relying_party":
		return &oidfed.OpenIDRelyingPartyMetadata{}
	case "openid_provider":
		return &oidfed.OpenIDProviderMetadata{}
	case "oauth_authorization_server":
		return &oidfed.OAuthAuthorizationServerMetadata{}
	case "oauth_client":
		return &oidfed.OAuthClientMetadata{}
	case "oauth_resource":
		return &oidfed.OAuthProtectedResourceMetadata{}
	}
	panic("unknown type " + t)
}

type docScenario struct {
	Type   string            `json:"type"`
	Text   string            `json:"text"`
	Ops    []string          `json:"ops"`
	Fields map[string]string `json:"fields"`
}

func fieldsOf(sc docScenario, doc any) ([]byte, error) {
	v := reflect.ValueOf(doc).Elem()
	out := map[string]any{}
	if extra := v.FieldByName("Extra"); extra.IsValid() {
		for _, k := range extra.MapKeys() {
			out[k.String()] = extra.MapIndex(k).Interface()
		}
	}
	for claim, f := range sc.Fields {
		if _, twice := out[claim]; twice {
			return nil, errors.New("known claim " + claim + " among the unknown ones")
		}
		out[claim] = v.FieldByName(f).Interface()
	}
	return json.Marshal(out)
}

func build(sc docScenario) (any, error) {
	doc := newDocument(sc.Type)
	v := reflect.ValueOf(doc).Elem()
	var m map[string]json.RawMessage
	if err := json.Unmarshal([]byte(sc.Text), &m); err != nil {
		return nil, err
	}
	extra := map[string]json.RawMessage{}
	for claim, value := range m {
		f, known := sc.Fields[claim]
		if !known {
			extra[claim] = value
			continue
		}
		if string(value) == "null" {
			continue
		}
		if err := json.Unmarshal(value, v.FieldByName(f).Addr().Interface()); err != nil {
			return nil, err
		}
	}
	if len(extra) > 0 {
		return doc, json.Unmarshal(mustJSON(extra), v.FieldByName("Extra").Addr().Interface())
	}
	return doc, nil
}

func payloadOf(jwt []byte) ([]byte, error) {
	parts := strings.Split(string(jwt), ".")
	if len(parts) != 3 {
		return nil, errors.New("not a jwt")
	}
	return base64.RawURLEncoding.DecodeString(parts[1])
}

func sign(t string, doc any) ([]byte, error) {
	s := oidfed.NewGeneralJWTSigner(getKey("docs").priv, jwa.ES256())
	switch t {
	case "statement":
		return s.EntityStatementSigner().JWT(doc)
	case "trust_mark":
		return s.TrustMarkSigner().JWT(doc)
	case "delegation":
		return s.TrustMarkDelegationSigner().JWT(doc)
	case "resolve_response":
		return s.ResolveResponseSigner().JWT(doc)
	}
	panic("cannot be signed: " + t)
}

func parse(t string, jwt []byte) (any, error) {
	switch t {
	case "statement":
		return oidfed.ParseEntityStatement(jwt)
	case "trust_mark":
		return oidfed.ParseTrustMark(jwt)
	case "resolve_response":
		return oidfed.ParseResolveResponse(jwt)
	}
	panic("cannot be parsed: " + t)
}

// iterate puts metadata together from what the iterators say about claims that are texts or lists of texts
func iterate(sc docScenario, md *oidfed.Metadata) ([]byte, error) {
	var result map[string]any
	if err := json.Unmarshal([]byte(sc.Text), &result); err != nil {
		return nil, err
	}
	out := map[string]map[string]any{}
	known := map[string]bool{
		"federation_entity": true, "openid_relying_party": true, "openid_provider": true, "oauth_authorization_server": true,
		"oauth_client": true, "oauth_resource": true,
	}
	for t, v := range result {
		if m, ok := v.(map[string]any); ok && known[t] {
			out[t] = m
		}
	}
	texts := []string{"display_name", "description", "logo_uri", "policy_uri", "information_uri", "organization_name", "organization_uri"}
	lists := []string{"contacts", "keywords"}
	claims := append(append([]string{"no_such_claim", "", "-", "Extra"}, texts...), lists...)
	before := string(mustJSON(md))
	for _, c := range claims {
		said := map[string]any{}
		md.IterateStringClaim(c, func(t, v string) {
			if _, twice := said[t]; twice {
				v += " (twice)"
			}
			said[t] = v
		})
		md.IterateStringSliceClaim(c, func(t string, v []string) {
			if _, twice := said[t]; twice {
				v = append([]string{"twice"}, v...)
			}
			said[t] = append([]string{}, v...)
		})
		for t := range out {
			mustSay := false
			switch v := out[t][c].(type) {
			case string:
				mustSay = v != "" && slices.Contains(texts, c)
			case []any:
				mustSay = slices.Contains(lists, c)
			}
			if v, ok := said[t]; ok {
				out[t][c] = v
			} else if mustSay {
				delete(out[t], c)
			}
			delete(said, t)
		}
		for t, v := range said {
			result[t+" "+c] = v
		}
	}
	if string(mustJSON(md)) != before {
		return nil, errors.New("iterating changed the metadata")
	}
	return json.Marshal(result)
}

// lookup puts metadata together from what is found for each entity type
func lookup(sc docScenario, md *oidfed.Metadata, typed bool) ([]byte, error) {
	var claims map[string]json.RawMessage
	if err := json.Unmarshal([]byte(sc.Text), &claims); err != nil {
		return nil, err
	}
	before := string(mustJSON(md))
	out := map[string]any{}
	for t, raw := range claims {
		found := map[string]any{}
		var into any = &found
		if typed {
			switch t {
			case "federation_entity", "openid_relying_party", "openid_provider", "oauth_authorization_server", "oauth_client", "oauth_resource":
				into = newDocument(t)
			}
		}
		err := md.FindEntityMetadata(t, into)
		if string(raw) == "null" {
			continue
		}
		if err != nil {
			return nil, err
		}
		out[t] = into
	}
	for _, t := range []string{"no_such_type", "openid_provider", "oauth_client"} {
		if _, published := claims[t]; published {
			continue
		}
		if err := md.FindEntityMetadata(t, &map[string]any{}); err == nil {
			return nil, errors.New("found metadata that is not there: " + t)
		}
	}
	if string(mustJSON(md)) != before {
		return nil, errors.New("looking something up changed the metadata")
	}
	return json.Marshal(out)
}

// transform reads a document, changes its representation, and writes it
func transform(sc docScenario, op string) ([]byte, error) {
	if op == "build" {
		doc, err := build(sc)
		if err != nil {
			return nil, err
		}
		return json.Marshal(doc)
	}
	doc := newDocument(sc.Type)
	if err := json.Unmarshal([]byte(sc.Text), doc); err != nil {
		return nil, err
	}
	next := newDocument(sc.Type)
	switch op {
	case "json":
		byPointer, err := json.Marshal(doc)
		if err != nil {
			return nil, err
		}
		byValue, err := json.Marshal(reflect.ValueOf(doc).Elem().Interface())
		if err != nil {
			return nil, err
		}
		if string(byPointer) != string(byValue) {
			return nil, errors.New("pointer and value are written differently: " + string(byPointer) + " " + string(byValue))
		}
		return byValue, nil
	case "twice":
		text, err := json.Marshal(doc)
		if err != nil {
			return nil, err
		}
		if err = json.Unmarshal(text, next); err != nil {
			return nil, err
		}
	case "fields":
		return fieldsOf(sc, doc)
	case "lookup", "lookup-typed":
		return lookup(sc, doc.(*oidfed.Metadata), op == "lookup-typed")
	case "iterate":
		return iterate(sc, doc.(*oidfed.Metadata))
	case "sign":
		jwt, err := sign(sc.Type, doc)
		if err != nil {
			return nil, err
		}
		return payloadOf(jwt)
	case "parse":
		jwt, err := sign(sc.Type, doc)
		if err != nil {
			return nil, err
		}
		p, err := parse(sc.Type, jwt)
		if err != nil {
			return nil, err
		}
		if es, ok := p.(*oidfed.EntityStatement); ok {
			p = es.EntityStatementPayload
		}
		return json.Marshal(p)
	case "msgpack":
		data, err := msgpack.Marshal(doc)
		if err != nil {
			return nil, err
		}
		if err = msgpack.Unmarshal(data, next); err != nil {
			return nil, err
		}
	case "cache":
		if sc.Type == "statement" {
			jwt, err := sign(sc.Type, doc)
			if err != nil {
				return nil, err
			}
			es, err := oidfed.ParseEntityStatement(jwt)
			if err != nil {
				return nil, err
			}
			if err = cache.Set("docs", es, time.Hour); err != nil {
				return nil, err
			}
			var loaded oidfed.EntityStatement
			ok, err := cache.Get("docs", &loaded)
			if err != nil || !ok {
				return nil, errors.Join(errors.New("not in cache"), err)
			}
			return json.Marshal(loaded.EntityStatementPayload)
		}
		if err := cache.Set("docs", doc, time.Hour); err != nil {
			return nil, err
		}
		ok, err := cache.Get("docs", next)
		if err != nil || !ok {
			return nil, errors.Join(errors.New("not in cache"), err)
		}
	case "nopolicy":
		m, err := doc.(*oidfed.Metadata).ApplyPolicy(&oidfed.MetadataPolicies{})
		if err != nil {
			return nil, err
		}
		return json.Marshal(m)
	case "yaml":
		data, err := yaml.Marshal(doc)
		if err != nil {
			return nil, err
		}
		if err = yaml.Unmarshal(data, next); err != nil {
			return nil, err
		}
	default:
		panic("unknown op " + op)
	}
	return json.Marshal(next)
}

// TestDocs reads documents, changes their representation, and writes them
func TestDocs(t *testing.T) {
	type step struct {
		Err   string `json:"err"`
		Panic string `json:"panic"`
		Text  string `json:"text"`
	}
	runScenarios(t, func(t *testing.T, raw []byte) any {
		var sc docScenario
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		steps := []step{}
		for _, op := range sc.Ops {
			var s step
			s.Panic = guarded(func() {
				data, err := transform(sc, op)
				s.Text = string(data)
				if err != nil {
					s.Err = strings.SplitN(err.Error(), "\n", 2)[0]
				}
			})
			steps = append(steps, s)
		}
		return steps
	})
}
