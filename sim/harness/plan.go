//go:build go1.22

package verifsim

// A Plan is everything that determines a run: the same plan and the same code
// give the same run. It is also the replay file.
type Plan struct {
	Prop    string       `json:"prop"`
	Seed    uint64       `json:"seed"`
	Kind    string       `json:"kind"`
	World   *World       `json:"world,omitempty"`
	Init    State        `json:"init"`
	Sched   Sched        `json:"sched"`
	SimSeed uint64       `json:"sim_seed"`
	Short   int          `json:"short_reads,omitempty"`
	SlowMS  int          `json:"slow_ms,omitempty"`
	LazyMS  int          `json:"lazy_ms,omitempty"`
	Cmd     CmdPlan      `json:"cmd"`
	Rounds  []*Round     `json:"rounds,omitempty"`
	Faults  []*Fault     `json:"faults,omitempty"`
	Steps   []*BuildStep `json:"steps,omitempty"`
	Repro   bool         `json:"repro,omitempty"`
	Multi   []*Job       `json:"multi,omitempty"`
	Lazies  *LazyPlan    `json:"lazies,omitempty"`
	Slow    *SlowPlan    `json:"slow,omitempty"`
	Reexec  *ReexecPlan  `json:"reexec,omitempty"`
	Race    bool         `json:"race,omitempty"`
	NetBuf  int          `json:"net_buf,omitempty"`
	Cycles  int          `json:"cycles,omitempty"` // soak: between measurements
	Vary    bool         `json:"vary,omitempty"`   // soak: something is different in every cycle
}

// CmdPlan is the command line.
type CmdPlan struct {
	Templates   bool     `json:"templates,omitempty"`
	Out         bool     `json:"out,omitempty"`
	Sub         string   `json:"sub,omitempty"`    // the output directory within out
	OutArg      string   `json:"outarg,omitempty"` // how it is written, with OUT for the path
	Search      bool     `json:"search,omitempty"`
	Debug       bool     `json:"debug,omitempty"`
	AllowBroken bool     `json:"allow_broken,omitempty"`
	Text        string   `json:"text,omitempty"`
	SectionTag  string   `json:"section_tag,omitempty"`
	SectionFile int      `json:"section_file,omitempty"`
	Threshold   string   `json:"threshold,omitempty"`
	Serve       bool     `json:"serve,omitempty"`
	Plugins     []string `json:"plugins,omitempty"`
	Extra       []string `json:"extra,omitempty"` // further arguments
}

// Round is one stretch of a server's life: edits and requests at the same time,
// then quiet requests once everything has settled.
type Round struct {
	Gap     int           `json:"gap_ms"`
	Edits   []*Edit       `json:"edits,omitempty"`
	Clients []*ClientPlan `json:"clients,omitempty"`
	Faults  []*Fault      `json:"faults,omitempty"`
	Quiet   []*Req        `json:"quiet,omitempty"`
	// Strict: the edits come first and concern every document, then there is one
	// request, and what it reports is judged by what it can have loaded
	Strict bool `json:"strict,omitempty"`
}

type ClientPlan struct {
	Name  string `json:"name"`
	Delay int    `json:"delay_ms,omitempty"`
	Bad   bool   `json:"bad,omitempty"` // misbehaves: nobody waits for it
	Reqs  []*Req `json:"reqs"`
}

// Edit replaces one file by another variant of it (-1: deletes it).
type Edit struct {
	What  string `json:"what"` // f, t or s
	Idx   int    `json:"idx"`
	Var   int    `json:"var"`
	How   string `json:"how"` // inplace (cut, then written), rename, restore (an older file put back, with its old time)
	Wait  int    `json:"wait_ms,omitempty"`
	Cut   int    `json:"cut,omitempty"`      // inplace: what is there in between: bytes of the new text
	Gap   int    `json:"gap_ms,omitempty"`   // inplace: time between the two steps
	Fault bool   `json:"at_fault,omitempty"` // performed by a fault, not by the editor
	Short bool   `json:"short,omitempty"`    // only the first Cut bytes, for good (strict rounds and steps)
}
