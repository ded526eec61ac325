package storecheck

// Call is a call of the specification. Which fields count depends on Op.
type Call struct {
	Op    string      `json:"op"`
	H     int         `json:"h,omitempty"`
	P     string      `json:"p"`
	P2    string      `json:"p2,omitempty"`
	Ps    []string    `json:"ps,omitempty"`
	V     string      `json:"v,omitempty"`
	D     string      `json:"d,omitempty"`
	C     string      `json:"c,omitempty"`
	T     string      `json:"t,omitempty"`
	Nd    int         `json:"nd,omitempty"`
	Ld    bool        `json:"ld,omitempty"`
	Keep  bool        `json:"keep,omitempty"`
	Act   string      `json:"act,omitempty"`
	What  string      `json:"what,omitempty"`
	Nf    bool        `json:"nf,omitempty"`
	Flt   string      `json:"flt,omitempty"`
	Must  bool        `json:"must,omitempty"`
	Kind  string      `json:"kind,omitempty"`
	Dl    string      `json:"dl,omitempty"`
	Flat  bool        `json:"flat,omitempty"`
	Watch bool        `json:"watch,omitempty"`
	Md    string      `json:"md,omitempty"`
	N     int         `json:"n,omitempty"`
	B     bool        `json:"b,omitempty"`
	Via   string      `json:"via,omitempty"`
	Ms    int         `json:"ms,omitempty"`
	Sp    string      `json:"sp,omitempty"`
	Fl    string      `json:"fl,omitempty"`
	Src   any         `json:"src,omitempty"` // kind of source (load) or its number (announce)
	W     bool        `json:"w,omitempty"`
	Nw    bool        `json:"nw,omitempty"`
	Fail  string      `json:"fail,omitempty"`
	Cd    string      `json:"cd,omitempty"`
	Lv    []Leaf      `json:"lv,omitempty"`
	L     int         `json:"l,omitempty"`
	As    bool        `json:"as,omitempty"`
	Ev    string      `json:"ev,omitempty"`
	Es    [][2]string `json:"es,omitempty"`
	Env   [][]string  `json:"env,omitempty"`
	Opt   *ProvOpt    `json:"opt,omitempty"`
	Ty    string      `json:"ty,omitempty"`
	Df    string      `json:"df,omitempty"`
	F     int         `json:"f,omitempty"`  // number of a file
	L0    int         `json:"l0,omitempty"` // which of several
}

// Leaf of a nested map to be merged or loaded.
type Leaf struct {
	S []string `json:"s"`
	V string   `json:"v"`
	D string   `json:"d"`
	C string   `json:"c"`
	T string   `json:"t"`
}

// ProvOpt are the options of the env and flags providers.
type ProvOpt struct {
	Pre   string `json:"pre"`
	Strip string `json:"strip"`
	Lower bool   `json:"lower"`
	U2d   bool   `json:"u2d"`
	Cb    bool   `json:"cb"`
	Sp    string `json:"sp"`
}

// Res is the answer of a call.
type Res map[string]any
