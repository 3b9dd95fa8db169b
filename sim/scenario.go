package main

// A scenario is everything a run depends on: the configuration, the episodes the agents play, and
// either a seed that decides delays and faults (record mode) or the explicit list of them (replay).

type NodeCfg struct {
	SkewMs   int64 `json:"skew_ms"`
	DriftPpm int64 `json:"drift_ppm"`
}

type KeyCfg struct {
	Alg string `json:"alg"`
	Kid string `json:"kid"`
	Key string `json:"key"` // "hs:<text>" or "rs0".."rs2"
}

type ClientCfg struct {
	Id           string   `json:"id"`
	Secret       string   `json:"secret"`
	Disabled     bool     `json:"disabled,omitempty"`
	Owner        int64    `json:"owner"`
	IdAlg        string   `json:"id_alg"`
	IdKid        string   `json:"id_kid"`
	IdKey        string   `json:"id_key"`
	Grants       []string `json:"grants"`
	Flows        []string `json:"flows"` // code, implicit, hybrid
	Scopes       []string `json:"scopes"`
	DirectScopes []string `json:"direct_scopes"`
	NeedScope    bool     `json:"need_scope,omitempty"` // may not do without a scope
	URIs         []string `json:"uris"`
	Keys         []KeyCfg `json:"keys"`
	OmitConsent  bool     `json:"omit_consent"`
	NonePolicy   int      `json:"none_policy"` // 0 forbidden 1 session 2 login_hint 3 id_token_hint
	AuthMethod   string   `json:"auth_method"` // how it normally authenticates: basic, body, query, assert
}

type UserCfg struct {
	Id       int64  `json:"id"`
	Name     string `json:"name"`
	Password string `json:"password"`
	Subject  string `json:"subject"`
}

type PolicyCfg struct {
	Default       bool   `json:"library_default,omitempty"` // the library's own, left alone
	MaxMaxAge     int    `json:"max_max_age"`
	MinMaxAge     int    `json:"min_max_age"`
	AllowEmpty    bool   `json:"allow_empty_scope"`
	MaxNonce      int    `json:"max_nonce"`
	MaxVerifier   int    `json:"max_verifier"`
	ConsentPeriod int    `json:"consent_period"`
	CodeLife      int    `json:"code_life"`
	IdLife        int    `json:"id_life"`
	CodeMode      string `json:"code_mode"`
	ImplMode      string `json:"implicit_mode"`
	IgnoreMode    bool   `json:"ignore_invalid_mode"`
	SecLevel      bool   `json:"sec_level_check"`
}

type Config struct {
	StartUnix     int64               `json:"start_unix"`
	Nodes         []NodeCfg           `json:"nodes"`
	Clients       []ClientCfg         `json:"clients"`
	Users         []UserCfg           `json:"users"`
	Policy        PolicyCfg           `json:"policy"`
	AcceptSecret  int                 `json:"accept_secret"`
	AcceptToken   int                 `json:"accept_token"`
	AcceptAssert  bool                `json:"accept_assertion"`
	Supported     []string            `json:"supported_grants"`
	Issuer        string              `json:"issuer"`
	Realm         string              `json:"realm"`
	ErrorURI      string              `json:"error_uri"`
	ErrorURIType  bool                `json:"error_uri_type,omitempty"` // an error page per type of error
	PPID          bool                `json:"ppid"`
	Rotate        bool                `json:"rotate_refresh"`
	RTAlways      bool                `json:"rt_always,omitempty"`   // every token comes with a refresh token
	RotateNone    bool                `json:"rotate_none,omitempty"` // a refresh issues no further refresh token
	ErrVal        bool                `json:"values_with_errors,omitempty"`
	StrayPct      int                 `json:"stray_pct,omitempty"`     // requests carrying parameters and headers without a meaning here
	HostSkewSec   int64               `json:"host_skew_sec,omitempty"` // the host's clock, which dates logins
	DefClock      bool                `json:"default_clock,omitempty"` // no clock is given to the endpoints
	DefLog        bool                `json:"default_log,omitempty"`   // no logger either
	UndatedPct    int                 `json:"undated_pct,omitempty"`   // logins the host has no date of
	ATLife        int64               `json:"at_life"`
	RTLife        int64               `json:"rt_life"`
	ScopeTable    map[string][]string `json:"scope_table"`
	AuthIdBase    int64               `json:"auth_id_base"`
	OpLatencyUs   int64               `json:"op_latency_us"` // fixed cost of each data-layer call
	CookieMaxLife int64               `json:"-"`

	// decision rates (record mode only)
	PYield    int   `json:"p_yield"` // per million yield points
	DelayKind int   `json:"delay_kind"`
	PFault    int   `json:"p_fault"` // per mille data-layer calls
	FaultMask int   `json:"fault_mask"`
	FaultOps  int   `json:"fault_ops"` // bit mask by operation hash: swarm subset
	PCbFault  int   `json:"p_cb_fault"`
	PStall    int   `json:"p_stall,omitempty"` // per mille calls of some kinds
	StallOps  int   `json:"stall_ops,omitempty"`
	PPanic    int   `json:"p_panic"` // per mille of data-layer and host calls
	PCrash    int   `json:"p_crash"` // per million yield points
	PNet      int   `json:"p_net"`   // per mille requests
	NetMask   int   `json:"net_mask"`
	QuietSec  int64 `json:"quiet_sec"` // faults and delays stop at this time
	EndSec    int64 `json:"end_sec"`
	Serial    bool  `json:"serial,omitempty"` // episodes one after another (for differential runs)
}

// AuthzParams are the parameters of one authorization request.
type AuthzParams struct {
	RespType  string `json:"response_type,omitempty"`
	Mode      string `json:"response_mode,omitempty"`
	Scope     string `json:"scope,omitempty"`
	State     string `json:"state,omitempty"`
	Nonce     string `json:"nonce,omitempty"`
	Prompt    string `json:"prompt,omitempty"`
	MaxAge    string `json:"max_age,omitempty"`
	Display   string `json:"display,omitempty"`
	Locales   string `json:"ui_locales,omitempty"`
	Pkce      string `json:"pkce,omitempty"` // "", plain, S256
	Verifier  string `json:"verifier,omitempty"`
	LoginHint string `json:"login_hint,omitempty"` // "right", "wrong", ""
	IdHint    string `json:"id_hint,omitempty"`    // "right","wrongkey","expired","noexp","othersub","garbage",""
	URI       int    `json:"uri,omitempty"`        // index of the registered URI
	Mut       string `json:"mut,omitempty"`        // attack on the request
	Post      bool   `json:"post,omitempty"`       // parameters in the body
	Decline   bool   `json:"decline,omitempty"`
	Resume    string `json:"resume,omitempty"` // "", "decoded": how the login page comes back
	ThinkSec  int64  `json:"think_sec,omitempty"`
	Submits   int    `json:"submits,omitempty"` // times the consent form is submitted (0 = 1)
}

// Step is one action of an episode.
type Step struct {
	Id      int          `json:"id"` // stable under minimisation: names of requests and decisions use it
	Op      string       `json:"op"`
	Gap     int64        `json:"gap,omitempty"`    // ns to wait before
	Edge    *int64       `json:"edge,omitempty"`   // wait until the handling node's clock reads expiry+Edge seconds
	Node    int          `json:"node,omitempty"`   // which node serves it
	N       int          `json:"n,omitempty"`      // concurrent presenters (0 = 1)
	Spread  int64        `json:"spread,omitempty"` // ns between presenters
	Muts    []string     `json:"muts,omitempty"`
	MutFrom int          `json:"mut_from,omitempty"` // muts apply to presenters from this index on
	Retry   int          `json:"retry,omitempty"`
	Src     int          `json:"src,omitempty"` // 0: own credentials; k>0: k-th artefact of the run
	Scope   string       `json:"scope,omitempty"`
	Grant   string       `json:"grant,omitempty"`
	A       *AuthzParams `json:"a,omitempty"`
	Arg     string       `json:"arg,omitempty"`
	Arg2    int64        `json:"arg2,omitempty"`
	Path    string       `json:"path,omitempty"`
	Client  int          `json:"client,omitempty"` // 0: the episode's client; k: client k-1
	User    int          `json:"user,omitempty"`   // 0: the episode's user; k: user k-1
	Mid     *Step        `json:"mid,omitempty"`    // what the operator does between the first presenter and the others
	Lag     int64        `json:"lag,omitempty"`    // ns one answer of the data layer takes to reach the first presenter
	Surge   int          `json:"surge,omitempty"`  // per mille: its calls fail at least this often
}

type Episode struct {
	Name    string `json:"name"`
	At      int64  `json:"at"`
	Client  int    `json:"client"`
	User    int    `json:"user"`
	Browser int    `json:"browser"`
	Steps   []Step `json:"steps"`
}

type Scenario struct {
	Seed    uint64     `json:"seed"`
	Prop    string     `json:"prop"`
	Profile string     `json:"profile"`
	Cfg     Config     `json:"cfg"`
	Eps     []*Episode `json:"episodes"`
}

// Replay is the replay file.
type Replay struct {
	Format    int        `json:"format"`
	Property  string     `json:"property"`
	Violation string     `json:"violation"`
	Kind      string     `json:"kind"`
	Seed      uint64     `json:"seed"`
	Race      bool       `json:"race_detector,omitempty"` // needs the race-detector build
	Warmup    []uint64   `json:"warmup_seeds,omitempty"`  // runs made before in the same process
	Scenario  *Scenario  `json:"scenario"`
	Trace     []Decision `json:"trace"`
	LogHash   string     `json:"event_log_hash"`
	Log       []string   `json:"event_log,omitempty"`
	Note      string     `json:"note,omitempty"`
}

// the grants as they are named on the wire (not by the library's constants, which are under test)
const (
	gtCode     = "authorization_code"
	gtRefresh  = "refresh_token"
	gtPassword = "password"
	gtClient   = "client_credentials"
	gtJWT      = "urn:ietf:params:oauth:client-assertion-type:jwt-bearer" // (as the library has it)
)
