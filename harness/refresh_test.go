package zzverif

import (
	"encoding/base64"
	"encoding/json"
	"net/http"
	"net/url"
	"runtime"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/unixtime"
)

type refreshEvent struct {
	Op  string `json:"op"`
	T   int    `json:"t"`
	R   int    `json:"r"`
	ID  int    `json:"id"`
	Exp int    `json:"exp"`
}

// TestRefresh asks for own trust marks while their issuer answers in different ways
func TestRefresh(t *testing.T) {
	runScenarios(t, func(t *testing.T, raw []byte) any {
		var sc struct {
			Start int    `json:"start"`
			Kind  string `json:"kind"`
			P     struct {
				Min     int  `json:"min"`
				Grace   int  `json:"grace"`
				Refresh bool `json:"refresh"`
				Init    struct {
					ID  int `json:"id"`
					Exp int `json:"exp"`
				} `json:"init"`
			} `json:"p"`
			Explicit bool `json:"explicit"`
			SelfLife int  `json:"selflife"`
			Issuer   []struct {
				From int    `json:"from"`
				Kind string `json:"kind"`
				EC   string `json:"ec"`
				Life int    `json:"life"`
				Lat  int    `json:"lat"`
			} `json:"issuer"`
			Steps []struct {
				T   int    `json:"t"`
				N   int    `json:"n"`
				API string `json:"api"`
			} `json:"steps"`
		}
		if err := json.Unmarshal(raw, &sc); err != nil {
			t.Fatal(err)
		}
		type obsT struct {
			Ev    []refreshEvent `json:"ev"`
			Bad   []string       `json:"bad"`
			Panic string         `json:"panic"`
		}
		obs := obsT{Ev: []refreshEvent{}, Bad: []string{}}
		inBubble(t, sc.Start, func(t *testing.T) {
			var mu sync.Mutex
			ids := map[string]int{}
			nextID := 1000
			logEv := func(e refreshEvent) {
				mu.Lock()
				defer mu.Unlock()
				e.T = nowTick()
				obs.Ev = append(obs.Ev, e)
			}
			// A request that waits for the lock of another one keeps the fake clock from going on. So answers are only late if
			// nobody has to wait for them but at most one request
			have, haveExp := sc.P.Init.ID != 0, sc.P.Init.Exp
			flightEnd, single := -1000000, true
			usableAt := func(now int) bool { return have && (haveExp == 0 || haveExp-now > sc.P.Min) }
			noCon := constraints{MPL: -1}
			ec := func(e string) stmt {
				return stmt{SID: int(e[0]), Iss: e, Sub: e, Iat: sc.Start - 10, Exp: sc.Start + 10000000, Keys: []string{"k" + e},
					Signer: "k" + e, Sig: "ok", Typ: "es", Types: []string{"federation_entity"}, Con: noCon}
			}
			iec := ec("I")
			w := newWorld(worldSpec{Ents: map[string]entity{"I": {Host: []string{"issuer", "test"}, Resp: "ok", EC: iec}, "S": {Host: []string{"s", "test"}, Resp: "ok", EC: ec("S")}}})
			defer w.close()
			w.setStmt("I", func(e *entity) {
				e.EC.Claims = map[string]any{"metadata": map[string]any{"federation_entity": map[string]any{"federation_trust_mark_endpoint": w.eid("I") + "/tm"}}}
			})
			const mtype = "https://marks.test/t"
			mark := func(id, life int, lat int, typ string) (string, int) {
				now := nowTick()
				p := map[string]any{"iss": w.eid("I"), "sub": w.eid("S"), "trust_mark_type": mtype, "iat": tick(now), "mid": id}
				exp := 0
				if life != 0 {
					exp = now + lat + life
					p["exp"] = tick(exp)
				}
				j := makeJWT(p, typHeader(typ), "kI", "ok")
				mu.Lock()
				ids[j] = id
				mu.Unlock()
				return j, exp
			}
			w.handler = func(name, path string, q url.Values, r *http.Request) (int, string, string, bool) {
				now := nowTick()
				b := sc.Issuer[0]
				for _, x := range sc.Issuer {
					if x.From <= now {
						b = x
					}
				}
				if name == "I" && path == ".well-known/openid-federation" && b.EC != "ok" {
					logEv(refreshEvent{Op: "contact"})
					logEv(refreshEvent{Op: "answer"})
					return 500, "text/plain", "oops", true
				}
				if path != "tm" && path != "owntm" {
					return 0, "", "", false
				}
				if q.Get("sub") != w.eid("S") || q.Get("trust_mark_type") != mtype || (path == "owntm") != (sc.Kind == "own") {
					mu.Lock()
					obs.Bad = append(obs.Bad, r.URL.String())
					mu.Unlock()
				}
				logEv(refreshEvent{Op: "contact"})
				mu.Lock()
				sleep := b.Kind == "late" && (single || usableAt(now))
				if sleep {
					flightEnd = now + b.Lat
				}
				nextID++
				id := nextID
				mu.Unlock()
				if sleep {
					time.Sleep(time.Duration(b.Lat) * time.Second)
				} else {
					for i := 0; i < 500; i++ {
						runtime.Gosched()
					}
				}
				if b.Kind == "late" {
					b.Kind = "ok"
				}
				st, ct, body := 200, "application/trust-mark+jwt", ""
				e := refreshEvent{Op: "answer"}
				switch b.Kind {
				case "ok":
					body, e.Exp = mark(id, b.Life, 0, "tm")
					e.ID = id
					mu.Lock()
					if e.Exp == 0 || e.Exp-nowTick() > sc.P.Min {
						have, haveExp = true, e.Exp
					}
					mu.Unlock()
				case "wrongtyp":
					body, _ = mark(id, b.Life, 0, "es")
				case "notfound":
					st, ct, body = 404, "application/json", `{"error":"not_found"}`
				case "errjson":
					st, ct, body = 400, "application/json", `{"error":"invalid_request"}`
				case "broken":
					st, ct, body = 500, "text/html", "<html>"
				case "garbage":
					body = "no jwt"
				case "empty":
					body = ""
				}
				logEv(e)
				return st, ct, body, true
			}
			cfg := &oidfed.EntityConfigurationTrustMarkConfig{
				TrustMarkType: mtype, TrustMarkIssuer: w.eid("I"), Refresh: sc.P.Refresh,
			}
			if sc.Explicit {
				cfg.MinLifetime = unixtime.DurationInSeconds{Duration: time.Duration(sc.P.Min) * time.Second}
				cfg.RefreshGracePeriod = unixtime.DurationInSeconds{Duration: time.Duration(sc.P.Grace) * time.Second}
			}
			own := ""
			switch sc.Kind {
			case "own":
				cfg.TrustMarkIssuer = w.eid("S")
				own = w.eid("S") + "/owntm"
			case "self":
				cfg.SelfIssued = true
				cfg.TrustMarkIssuer = ""
				cfg.SelfIssuanceSpec = oidfed.TrustMarkSpec{Lifetime: unixtime.DurationInSeconds{Duration: time.Duration(sc.SelfLife) * time.Second}}
			}
			if sc.P.Init.ID != 0 {
				life := 0
				if sc.P.Init.Exp != 0 {
					life = sc.P.Init.Exp - sc.Start
				}
				if sc.P.Init.Exp == 0 || life > 0 {
					cfg.JWT, _ = mark(sc.P.Init.ID, life, 0, "tm")
				} else {
					cfg.JWT = makeJWT(map[string]any{"iss": w.eid("I"), "sub": w.eid("S"), "trust_mark_type": mtype, "iat": tick(sc.Start - 10000),
						"exp": tick(sc.P.Init.Exp)}, typHeader("tm"), "kI", "ok")
					ids[cfg.JWT] = sc.P.Init.ID
				}
			}
			signer := oidfed.NewTrustMarkSigner(getKey("kS").priv, jwa.ES256())
			obs.Panic = guarded(func() {
				if err := cfg.Verify(w.eid("S"), own, signer); err != nil {
					panic(err)
				}
			})
			fe, err := oidfed.NewFederationEntity(w.eid("S"), nil, &oidfed.Metadata{}, oidfed.NewEntityStatementSigner(getKey("kS").priv, jwa.ES256()), 100, nil)
			if err != nil {
				t.Fatal(err)
			}
			fe.TrustMarks = []*oidfed.EntityConfigurationTrustMarkConfig{cfg}
			// self issued marks are identified by the time they were issued at, they are obtained in that moment
			idOf := func(j string) int {
				if j == "" {
					return 0
				}
				mu.Lock()
				defer mu.Unlock()
				if id, ok := ids[j]; ok {
					return id
				}
				var c struct {
					Iat, Exp float64
					Sub      string
					Type     string `json:"trust_mark_type"`
				}
				parts := strings.Split(j, ".")
				if sc.Kind == "self" && len(parts) == 3 {
					body, _ := base64.RawURLEncoding.DecodeString(parts[1])
					if json.Unmarshal(body, &c) == nil && c.Sub == w.eid("S") && c.Type == mtype {
						at := int(int64(c.Iat) - baseTime.Unix())
						exp := 0
						if c.Exp != 0 {
							exp = int(int64(c.Exp) - baseTime.Unix())
						}
						ids[j] = 5000 + at
						// before everything that happened later
						i := 0
						for i < len(obs.Ev) && obs.Ev[i].T <= at {
							i++
						}
						obs.Ev = append(obs.Ev[:i:i], append([]refreshEvent{{Op: "contact", T: at}, {Op: "answer", T: at, ID: ids[j], Exp: exp}}, obs.Ev[i:]...)...)
						return ids[j]
					}
				}
				return -1
			}
			var wg sync.WaitGroup
			n := 0
			one := func(r int, api string) {
				defer wg.Done()
				logEv(refreshEvent{Op: "req", R: r})
				var j string
				p := guarded(func() {
					if api == "direct" {
						x, err := cfg.TrustMarkJWT()
						if err == nil {
							j = x
						}
						return
					}
					x, err := fe.EntityConfigurationJWT()
					if err != nil {
						panic(err)
					}
					es, err := oidfed.ParseEntityStatement(x)
					if err != nil {
						panic(err)
					}
					if len(es.TrustMarks) > 1 {
						panic("several marks")
					}
					if len(es.TrustMarks) > 0 {
						j = es.TrustMarks[0].TrustMarkJWT
						if es.TrustMarks[0].TrustMarkType != mtype {
							j = "wrong type"
						}
					}
				})
				if p != "" {
					mu.Lock()
					obs.Panic = p
					mu.Unlock()
				}
				id := idOf(j)
				logEv(refreshEvent{Op: "ret", R: r, ID: id})
			}
			if obs.Panic == "" {
				for si, s := range sc.Steps {
					mu.Lock()
					wait := -1
					if flightEnd >= s.T && !(usableAt(s.T) && s.T != flightEnd) {
						wait = flightEnd + 1
					}
					mu.Unlock()
					if wait >= 0 {
						sleepUntilTick(wait)
						synctest.Wait()
					}
					sleepUntilTick(s.T)
					mu.Lock()
					single = s.N == 1
					mu.Unlock()
					for k := 0; k < s.N; k++ {
						n++
						wg.Add(1)
						go one(n, s.API)
					}
					synctest.Wait()
					if sc.Kind == "self" {
						// what was issued in the background shows now
						wg.Wait()
						n++
						wg.Add(1)
						one(n, "direct")
					}
					if si == len(sc.Steps)-1 {
						wg.Wait()
						time.Sleep(300 * time.Second)
						synctest.Wait()
						mu.Lock()
						single = true
						mu.Unlock()
						n++
						wg.Add(1)
						one(n, "direct")
					}
					synctest.Wait()
					if sc.Kind == "self" {
						// what was issued in the background shows now
						wg.Wait()
						n++
						wg.Add(1)
						one(n, "direct")
					}
				}
			}
			wg.Wait()
			synctest.Wait()
			// nothing is in flight any more
			time.Sleep(1000 * time.Second)
		})
		return obs
	})
}
