"""Which families of scenarios and which model checks decide a property."""

RESOLVER = {"module": "MCResolver", "quick": {"PAIR_EVERY": "1500"}, "thorough": {"PAIR_EVERY": "60"}}

CHAIN_NOTE = ("The rules for valid trust chains are specified in spec/Federation.tla; TLC shows on spec/Resolver.tla that a resolver that works the way "
              "the implementation does returns exactly the chains that satisfy them. The real resolver is run on a systematic family of "
              "small federations (18 shapes, every single deviation of every statement, a seeded sample of pairs of deviations) and on random "
              "larger ones, and TLC validates each recorded result against the specification. Assurance is bounded by the explored federations; "
              "ECDSA signatures with P-256 only. Trusted: TLC, the harness, and the jwx library.")

POLICY = {"module": "MCPolicy", "quick": {"MAXOPS": "2", "MAXENTRIES": "2"}, "thorough": {"MAXOPS": "3", "MAXENTRIES": "2"}}
POLICY_NOTE = ("The rules for combining and applying metadata policies are specified in spec/Policy.tla; TLC checks their laws (narrowing, order, "
               "conflicts stay, idempotence, stability) exhaustively on spec/MCPolicy.tla. The real code resolves the metadata of an entity at the "
               "bottom of a chain of superiors with TLC-generated and random policies, and TLC validates the resolved metadata, the combined policy "
               "and the validity of the chain against the rules. Bounded by the explored policies; empty strings are not explored.")

STMTCACHE = {"module": "MCStmtCache", "quick": {"LOCS": "1", "MAXSTEPS": "4", "MAXHALF": "10"},
             "thorough": {"LOCS": "1", "MAXSTEPS": "5", "MAXHALF": "10"}}
CACHE_NOTE = ("The statement cache with its background refresh is specified as a state machine in spec/StmtCache.tla, on which TLC checks freshness "
              "exhaustively within small bounds; histories of lookups, re-publications, outages and time steps are replayed into the real code with "
              "both cache backends under fake time, and TLC validates every answer and every request made. Bounded by the explored histories.")
HISTORY_NOTE = ("Histories of resolutions (subjects, anchors, pinned keys, type limits, time steps) are replayed into the real code with a warm "
                "cache; TLC validates every result against spec/Federation.tla at that moment and against that of a resolution with an empty cache. "
                "Bounded by the explored histories.")

MARKS = {"module": "MCTrustMarks", "quick": {"MAXTIME": "3", "MAXDOCS": "1"}, "thorough": {"MAXTIME": "2", "MAXDOCS": "2"}}
MARKS_NOTE = ("spec/TrustMarks.tla specifies when a trust mark is accepted; TLC checks on spec/MCTrustMarks.tla (owner, issuers, attacker, key rollover, "
              "time) that whatever is accepted goes back to what owner and issuer did, and that what they did is accepted. Marks and delegations with "
              "random deviations, published by members of random federations, are verified, resolved and collected by the real code, at two points in "
              "time, and TLC validates every verdict. Bounded by the explored scenarios.")

REFRESH = {"module": "MCTrustMarkRefresh", "quick": {"MAXTIME": "6", "REQS": "3"}, "thorough": {"MAXTIME": "6", "REQS": "4"}}
REFRESH_NOTE = ("spec/TrustMarkRefresh.tla states the rules for keeping own trust marks fresh as predicates over histories of requests, contacts "
                "and answers; TLC shows on spec/MCTrustMarkRefresh.tla that a machine working like the implementation satisfies them in every "
                "interleaving. Histories of concurrent requests, outages and late answers are replayed into the real code under fake time with the "
                "race detector on, and TLC validates every recorded history. Bounded by the explored histories and schedules.")

COLLECTION = {"module": "MCCollection", "quick": {"NODES": "3", "WORKERS": "2", "MAXOUT": "2"},
              "thorough": {"NODES": "3", "WORKERS": "3", "MAXOUT": "3"}}
COLLECT_NOTE = ("spec/Collection.tla states what a collection and its filters must return for a federation; TLC shows on spec/MCCollection.tla that "
                "bounded workers with a shared visited set visit every reachable entity exactly once and terminate. The real collectors, filters and "
                "claims are run, alone and concurrently, on random federations (loops, shared subtrees, outages, wide, flat and deep ones), with the "
                "race detector on, and TLC validates every result. Bounded by the explored federations and schedules.")

ISSUE = {"module": "MCIssuance", "quick": {"MAXDOCS": "2"}, "thorough": {"MAXDOCS": "3"}}
ISSUE_NOTE = ("spec/Issuance.tla specifies issuers, owners and entities as a state machine: what every issued document contains and when it verifies; "
              "TLC checks on spec/MCIssuance.tla that acceptance ends exactly with the lifetime, that an override has no lasting effect and that no "
              "other key verifies. Histories of issuing, reconfiguring and verifying, with all supported signature algorithms, are replayed into the "
              "real code under fake time, and TLC validates every issued claim and every verdict. Bounded by the explored histories; whole and half "
              "seconds only.")
TYPING = {"module": "MCJwtTyping", "quick": {"RULE": "exact", "MAXSIGS": "2"}, "thorough": {"RULE": "exact", "MAXSIGS": "2"}}
TYPING_NOTE = ("spec/JwtTyping.tla specifies which JWS may be accepted as which kind of document; TLC checks on spec/MCJwtTyping.tla that the rule "
               "admits no confusion, in contrast to three weaker rules. TLC generates all combinations of serialization, number of signatures, "
               "protected and unprotected headers and payload kind within the bounds; all are parsed by every parser of the real code, and TLC "
               "validates each verdict. Up to three signatures.")

CHAINOPS = {"module": "MCChainOps", "quick": {"LISTLEN": "2", "MIDS": "3"}, "thorough": {"LISTLEN": "3", "MIDS": "2"}}
CHAINOPS_NOTE = ("spec/ChainOps.tla specifies filtering, sorting, path length and expiration of chains; TLC checks the laws (subset, order kept, "
                 "permutation, stability, intersection, idempotence) on spec/MCChainOps.tla. Random lists of chains that share statements are "
                 "filtered and sorted by sequences of operations in the real code, every list being observed after every operation, and local "
                 "resolutions are run on random federations; TLC validates every result. Bounded by the explored lists.")
REMOTE = {"module": "MCRemoteResolvers", "quick": {"ANCHORS": "3"}, "thorough": {"ANCHORS": "4"}}
REMOTE_NOTE = ("spec/RemoteResolvers.tla specifies who is asked, what an answer decides, and who decides; TLC checks on spec/MCRemoteResolvers.tla "
               "that nothing is invented for all combinations of anchors and answers. Histories of resolutions and collections against endpoints "
               "that answer, fail, disappear and lie are replayed into the real resolvers and collectors, and TLC validates the requests and "
               "results, including the fallback to local resolution, against the federation specification. Bounded by the explored histories.")

PROPS = {
    "C17": {"families": ["chainops", "remote"], "models": [CHAINOPS], "note": CHAINOPS_NOTE},
    "C18": {"families": ["remote"], "models": [REMOTE], "note": REMOTE_NOTE},
    "C13": {"families": ["issue"], "models": [ISSUE], "note": ISSUE_NOTE},
    "C19": {"families": ["auth"], "models": [{"module": "MCAuthRequest", "quick": {"NAMES": "3", "MAXDOCS": "2"},
            "thorough": {"NAMES": "5", "MAXDOCS": "2"}}],
            "note": "Authentication requests: AuthRequest.tla says which provider metadata is acceptable, what a request object, a client "
                    "assertion, an authorization URL and a token request must contain given the caller's parameters, the clock and the "
                    "documents already produced; sequences of calls are generated (parameter maps reused between calls, hostile "
                    "parameters, providers whose trust comes and goes), the real documents are parsed with an independent parser and "
                    "TLC judges each of them"},
    "C20": {"families": ["typing"], "models": [TYPING], "note": TYPING_NOTE},
    "C01": {"families": ["chains"], "models": [RESOLVER], "note": CHAIN_NOTE},
    "C02": {"families": ["chains", "history"], "models": [RESOLVER], "note": CHAIN_NOTE},
    "C03": {"families": ["chains"], "models": [RESOLVER], "note": CHAIN_NOTE},
    "C04": {"families": ["chains"], "models": [RESOLVER], "note": CHAIN_NOTE},
    "C05": {"families": ["chains"], "models": [RESOLVER], "note": CHAIN_NOTE},
    "C06": {"families": ["chains"], "models": [RESOLVER], "note": CHAIN_NOTE},
    "C07": {"families": ["policy"], "models": [POLICY], "note": POLICY_NOTE},
    "C09": {"families": ["history"], "models": [], "note": HISTORY_NOTE},
    "C10": {"families": ["stmtcache"], "models": [STMTCACHE], "note": CACHE_NOTE},
    "C11": {"families": ["trustmarks"], "models": [MARKS], "note": MARKS_NOTE},
    "C12": {"families": ["trustmarks"], "models": [MARKS], "note": MARKS_NOTE},
    "C14": {"families": ["refresh"], "models": [REFRESH], "note": REFRESH_NOTE},
    "C15": {"families": ["collect", "trustmarks:0.3"], "models": [COLLECTION], "note": COLLECT_NOTE},
    "C16": {"families": ["collect"], "models": [], "note": COLLECT_NOTE},
    "C21": {"families": ["concurrent", "policy", "stmtcache"], "models": [],
            "note": "Results of concurrent and repeated resolutions are validated by TLC against the specification, with the race detector on; inputs "
                    "are compared before and after each operation. Bounded by the explored scenarios and schedules."},
    "C22": {"families": ["policy", "history"], "models": [], "note": HISTORY_NOTE},
    "C23": {"families": ["chains", "history", "auth"], "models": [], "note": HISTORY_NOTE},
    "C24": {"families": ["docs"], "models": [{"module": "MCDocuments", "quick": {"BUG": "0", "DEPTH": "6"}, "thorough": {"BUG": "0", "DEPTH": "12"}}],
            "note": "Documents.tla defines what a document says (paths to values), and the law that reading, storing, signing, loading and writing it "
                    "is the identity on that; TLC shows on MCDocuments.tla that a codec with fields, a bag of unknown claims and a note of what "
                    "was present obeys it in any sequence of steps; documents with every single claim and value (enumerated from the tables by "
                    "TLC) and random combinations are sent through the real types, and TLC judges each result"},
    "C08": {"families": ["policy"], "models": [POLICY], "note": POLICY_NOTE},
}

NOT_APPLICABLE = {}
