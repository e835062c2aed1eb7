package hpipe

import "github.com/andrewkroh/go-sawmill/internal/zzverif/vsym"

func choose(name string, shapes ...string) string {
	return shapes[vsym.Choose(name, len(shapes))]
}

func shapes() string {
	quick := []string{"()|", "()()|()", "(()())|()", "((()))|", "()|(())", "(())()|", "()()()|()()", "|()", "(()(()))|"}
	if vsym.Tier() == 0 {
		return choose("shape", quick...)
	}
	return choose("shape", append(quick, "(())(())|(())", "((())())|()", "()()()()|()", "(((())))|", "(()()())()|", "()|()()()", "()|((()))")...)
}

// C13_Rules: which components run, in which order, and what comes out.
func C13_Rules() {
	allow(oOK, oFail, oMissing)
	p, pipe := newPlan(shapes(), true)
	p.process(pipe)
}

// C26_Wrapped: a missing field is recognised through wrapped errors.
func C26_Wrapped() {
	allow(oOK, oFail, oMissing, oWrapped)
	p, pipe := newPlan(choose("shape", "()|()", "(())|", "()()|"), true)
	p.process(pipe)
}

// C14_Stop: drop and cancel end the processing wherever they happen.
func C14_Stop() {
	allow(oOK, oFail, oDrop, oCancel)
	p, pipe := newPlan(shapes(), true)
	p.process(pipe)
}

// C14_Fail: a component may also return an error with the event it drops or
// cancels.
func C14_Fail() {
	allow(oOK, oFail, oDropFail, oCancelFail, oCancelDrop, oDropCancel)
	p, pipe := newPlan(shapes(), true)
	p.process(pipe)
}

// C13_Fail: the same rules for failures of components that drop or cancel too.
func C13_Fail() {
	allow(oOK, oFail, oMissing, oDropFail, oCancelFail, oCancelDrop)
	p, pipe := newPlan(choose("shape", "(())|()", "()|()", "()()|", "(()())|"), true)
	p.process(pipe)
}

// C15_Fail: the counters of components that drop or cancel an event and
// return an error.
func C15_Fail() {
	allow(oOK, oFail, oMissing, oDropFail, oCancelFail, oCancelDrop)
	p, pipe := newPlan(choose("shape", "(())|()", "()|()", "()()|"), true)
	p.process(pipe)
	p.checkCounters(pipe)
	vsym.Reach("counted")
}

// C14_Bare: events that have no fields, from the start or because a component
// deletes them, follow the same rules.
func C14_Bare() {
	allow(oOK, oFail, oDrop, oCancel)
	bare = 1 + vsym.Choose("bare", 2)
	p, pipe := newPlan(choose("shape", "()()|()", "(())|", "(())()|", "()|(())"), true)
	p.process(pipe)
}

// C15_Counters: the counters account for every event.
func C15_Counters() {
	allow(oOK, oFail, oMissing, oDrop, oCancel)
	s := shapes()
	vsym.Assume(vsym.Tier() == 1 || len(s) < 10)
	p, pipe := newPlan(s, true)
	p.process(pipe)
	p.checkCounters(pipe)
	vsym.Reach("counted")
}

// C15_Bare: events without fields are counted like any other.
func C15_Bare() {
	allow(oOK, oFail, oMissing, oDrop, oCancel)
	bare = 1 + vsym.Choose("bare", 2)
	p, pipe := newPlan(choose("shape", "(())|", "()|()", "()()|"), true)
	p.process(pipe)
	p.checkCounters(pipe)
	vsym.Reach("counted")
}

// C15_Totals: the counters add up over several events.
func C15_Totals() {
	allow(oOK, oFail, oDrop)
	p, pipe := newPlan(choose("shape", "(())|()", "()()|"), false)
	for i := vsym.Pick(2, 3); i > 0; i-- {
		p.process(pipe)
	}
	p.checkCounters(pipe)
	vsym.Reach("added")
}

// forest is any forest of n components.
func forest(n int) string {
	if n == 0 {
		return ""
	}
	k := vsym.Choose("handlers", n)
	return "(" + forest(k) + ")" + forest(n-1-k)
}

// anyShape is any pipeline of up to max components.
func anyShape(max int) (string, int) {
	n := 1 + vsym.Choose("components", max)
	g := vsym.Choose("global", n+1)
	return forest(n-g) + "|" + forest(g), n
}

// C13_All: every small pipeline.
func C13_All() {
	allow(oOK, oFail, oMissing)
	s, n := anyShape(vsym.Pick(4, 6))
	p, pipe := newPlan(s, n < 4)
	p.process(pipe)
}

// C14_All: the same with components that drop or cancel.
func C14_All() {
	allow(oOK, oFail, oDrop, oCancel)
	s, n := anyShape(vsym.Pick(4, 6))
	p, pipe := newPlan(s, n < 3)
	p.process(pipe)
}

// C15_All: and their counters.
func C15_All() {
	allow(oOK, oFail, oDrop, oCancelFail)
	s, n := anyShape(vsym.Pick(4, 5))
	p, pipe := newPlan(s, n < 3)
	p.process(pipe)
	p.checkCounters(pipe)
	vsym.Reach("counted")
}
