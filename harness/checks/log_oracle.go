package checks

import (
	"strconv"
	"strings"
)

// logLine is one message the library logged at a level operators watch.
type logLine struct {
	level string // "error" or "info"
	text  string
}

// mentions tells that s contains sub and not as the beginning of a longer number.
func mentions(s, sub string) bool {
	if sub == "" {
		return false
	}
	for {
		i := strings.Index(s, sub)
		if i < 0 {
			return false
		}
		s = s[i+len(sub):]
		if s == "" || s[0] < '0' || s[0] > '9' {
			return true
		}
	}
}

// named tells that the name appears in the text, quoted or as it is.
func named(text, name string) bool {
	q := strconv.Quote(name)
	return strings.Contains(text, name) || strings.Contains(text, q[1:len(q)-1])
}

// logWant says how often an end of a run has to appear in the log.
type logWant struct {
	name, text string
	level      string // where it has to appear
	lo, hi     int
	stack      string // must appear too when not empty
}

type logWants struct {
	by    map[string]*logWant
	order []*logWant
}

func (ws *logWants) add(name, text, level, stack string, sure bool) {
	if ws.by == nil {
		ws.by = map[string]*logWant{}
	}
	k := name + "\x00" + text
	l := ws.by[k]
	if l == nil {
		l = &logWant{name: name, text: text, level: level, stack: stack}
		ws.by[k] = l
		ws.order = append(ws.order, l)
	}
	if sure {
		l.lo++
	}
	l.hi++
}

// judgeLog compares what was logged with what had to be.
func judgeLog(lines []logLine, ws *logWants, fail func(format string, args ...any)) {
	if sameText {
		return // Nothing tells what a line is about.
	}
	used := make([]bool, len(lines))
	same := map[string]int{} // wants with the text
	for _, l := range ws.order {
		same[l.text]++
	}
	for _, l := range ws.order {
		// An odd name does not tell whose failure a line is about.
		vague := nameStyle > 0 && (same[l.text] > 1 || l.text == "Goexit")
		n, wrong := 0, ""
		for i, x := range lines {
			if !mentions(x.text, l.text) || !named(x.text, l.name) {
				continue
			}
			if x.level == "error" {
				used[i] = true
			}
			if x.level == l.level {
				n++
				if l.stack != "" && !mentions(x.text, l.stack) {
					wrong = "without its stack trace"
				}
			} else if l.level == "info" && x.level == "error" {
				wrong = "at ERROR instead of INFO"
			}
		}
		switch {
		case wrong != "" && !vague:
			fail("failure %q of %s was logged %s", l.text, l.name, wrong)
		case n < l.lo:
			fail("failure %q of %s was logged %d times at %s, expected %d", l.text, l.name, n, l.level, l.lo)
		case n > l.hi && l.level == "error" && !vague:
			fail("failure %q of %s was logged %d times at %s, expected at most %d", l.text, l.name, n, l.level, l.hi)
		}
	}
	for i, x := range lines {
		if x.level == "error" && !used[i] {
			fail("%q was logged at ERROR though no run ended with an unexpected error of that text", x.text)
		}
	}
}
