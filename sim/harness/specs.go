//go:build go1.22

package verifsim

import "time"

// How much each property's check explores, and how its cases are made.

func q(runs, race int) budget { return budget{runs, race, 150 * time.Second} }

func deep(runs, race int) budget { return budget{runs, race, 800 * time.Second} }

const seeded = " Every run draws a schedule policy (one after the other; random preemption at any statement of booklit; priority based with change points; switching at I/O only) and its seed."

var specs = map[string]propSpec{
	"C01": {quick: q(1100, 0), thorough: deep(200000, 0), not: []string{"handles"},
		rule: "A run is a booklit --serve process in the simulator, with generated documents, templates and static files, going through rounds of edits (in place with a torn intermediate state, by rename, by putting back an older file) concurrent with requests, then quiet requests; every answer is compared with a reference model of the states it may have seen and, byte for byte, with a fresh process on the same files." + seeded + " Non-trivial: at least one edit took effect and at least one request was answered after it."},
	"C02": {quick: q(1200, 60), thorough: deep(200000, 3000), not: []string{"handles"},
		rule: "A run is a booklit --serve process answering up to 6 concurrent clients on unchanged files; every answer is compared with the reference model and with the bytes of the same request made alone to a fresh process; some of the runs are under the race detector with the simulator's own synchronisation hidden from it." + seeded + " Non-trivial: at least two requests were in progress at the same time."},
	"C03": {quick: q(1400, 0), thorough: deep(200000, 0), not: []string{"handles"},
		rule: "A run is a booklit --serve process with clients that stall, drip, reset, cut requests short or send garbage, documents that fail or panic, edits, and well-behaved clients who have to be answered within a bound of simulated time." + seeded + " Non-trivial: a client misbehaved or a document failed or panicked while others were being served."},
	"C04": {quick: q(2200, 0), thorough: deep(200000, 0), not: []string{"handles"},
		rule: "A run is a booklit --serve process whose documents and templates become defective and are repaired again, and whose reads fail with injected errors, in between and during requests." + seeded + " Non-trivial: a fault fired, or an answer reported a defect."},
	"C05": {quick: q(3000, 0), thorough: deep(200000, 0),
		rule: "A run is one or more booklit builds in process images of their own, with injected write-side faults (create, write, short write, flush at close, mkdir, encoder) in the output directory; a build that exits 0 has to have written exactly what the reference model and a fault-free build of the same inputs call for." + seeded + " Non-trivial: a fault fired."},
	"C06": {quick: q(3000, 0), thorough: deep(200000, 0),
		rule: "A run is one or more booklit builds with injected read-side faults (stat, open, read, short reads, early end, directory listing, close) on documents and templates." + seeded + " Non-trivial: a fault fired or reads were short."},
	"C07": {quick: q(1200, 0), thorough: deep(200000, 0),
		rule: "A run is a history of builds of changing documents into one output directory, in which builds are killed at arbitrary operations (losing what was not yet flushed, or half of a write), fail, or find other files' leftovers, with clock jumps in between, and which ends with a fault-free build." + seeded + " Non-trivial: a crash or a fault fired or something was left over."},
	"C08": {quick: q(1500, 0), thorough: deep(200000, 0),
		rule: "A run builds the same files several times in process images with different schedules, random seeds, map orders, directory orders, clocks, read sizes and output directories and compares all bytes." + seeded + " Non-trivial: the builds differed in their schedule or environment."},
	"C09": {quick: q(1600, 0), thorough: deep(200000, 0), only: []string{"handles"},
		rule: "A run is a booklit --serve process going through documents that parse and do not, injected read faults, edits and requests; at every quiet point no document, template or static file may be open and no connection may be left that its client has given up." + seeded + " Non-trivial: a document failed or a fault fired."},
	"C10": {quick: q(6000, 60), thorough: deep(400000, 3000),
		rule: "A run makes deferred contents (nested, slow, failing) and has several users force, render or merely look at them at the same time." + seeded + " Non-trivial: two users of the same deferred content overlapped."},
	"C11": {quick: q(8000, 0), thorough: deep(400000, 0),
		rule: "A run evaluates documents made of calls that take simulated time, nested, failing, in several loaders or server requests at once, with thresholds around their durations; the log is compared with what the calls really did." + seeded + " Non-trivial: a call took longer than the threshold."},
	"C12": {quick: q(2200, 60), thorough: deep(200000, 3000),
		rule: "A run has several users load documents and render them with engines of their own at the same time, on files of their own or shared ones, with a processor of their own or a shared one; each has to get what it gets alone; some of the runs are under the race detector." + seeded + " Non-trivial: at least two users were at work at the same time."},
	"C13": {quick: q(8000, 0), thorough: deep(400000, 0),
		rule: "A run is a booklit command with plugins: go install and the built binary are simulated children that succeed, fail, are killed, cannot be started or say things, under injected faults on the temporary directory, with signals to booklit and to its children." + seeded + " Non-trivial: a child failed, a fault fired or two commands overlapped."},
	"C15": {quick: q(400, 0), thorough: deep(200000, 0), only: []string{"goroutines", "memory", "files"},
		rule: "A run is a booklit --serve process that goes through the same cycle of edits, defects, injected read faults, abandoned, garbled and ordinary requests some 13 to 22 times, with the files as they were at the end of each; after four of them, and then three times again after several more, its goroutines are counted, and its memory after collecting garbage, while nothing is in progress." + seeded + " Non-trivial: it was edited, or a document failed, or a client misbehaved."},
	"C14": {quick: q(2500, 0), thorough: deep(200000, 0), not: []string{"handles"},
		rule: "A run is a booklit --serve process whose documents are defective, and the file an error is about is changed, shortened, removed or becomes unreadable at every operation of reporting it." + seeded + " Non-trivial: a fault or an edit hit while an error was being reported, or a defect was reported."},
}
