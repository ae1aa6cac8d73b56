// Reads documents (length in decimal, newline, bytes) and writes what the Go parser makes of each,
// in the compliance form, framed the same way.
package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"

	styx "github.com/bearcove/styx/implementations/styx-go"
)

func str(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch r {
		case '"':
			b.WriteString("\\\"")
		case '\\':
			b.WriteString("\\\\")
		case '\n':
			b.WriteString("\\n")
		case '\r':
			b.WriteString("\\r")
		case '\t':
			b.WriteString("\\t")
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}
func span(s styx.Span) string { return fmt.Sprintf("[%d, %d]", s.Start, s.End) }
func payload(b *strings.Builder, v *styx.Value) {
	switch v.PayloadKind {
	case styx.PayloadScalar:
		fmt.Fprintf(b, "(scalar %s %s %s)", span(v.Scalar.Span), v.Scalar.Kind, str(v.Scalar.Text))
	case styx.PayloadSequence:
		fmt.Fprintf(b, "(sequence %s", span(v.Sequence.Span))
		for _, i := range v.Sequence.Items {
			b.WriteByte(' ')
			value(b, i)
		}
		b.WriteByte(')')
	case styx.PayloadObject:
		fmt.Fprintf(b, "(object %s", span(v.Object.Span))
		entries(b, v.Object.Entries)
		b.WriteByte(')')
	default:
		b.WriteString("(unknown)")
	}
}
func value(b *strings.Builder, v *styx.Value) {
	if v.Tag != nil {
		fmt.Fprintf(b, "(tag %s %s", span(v.Span), str(v.Tag.Name))
		if v.PayloadKind != styx.PayloadNone {
			b.WriteByte(' ')
			payload(b, v)
		}
		b.WriteByte(')')
	} else if v.PayloadKind == styx.PayloadNone {
		fmt.Fprintf(b, "(unit %s)", span(v.Span))
	} else {
		payload(b, v)
	}
}
func entries(b *strings.Builder, es []*styx.Entry) {
	for _, e := range es {
		b.WriteString(" (entry ")
		value(b, e.Key)
		b.WriteByte(' ')
		value(b, e.Value)
		b.WriteByte(')')
	}
}
func parse(text string) (out string) {
	defer func() {
		if r := recover(); r != nil {
			out = "(crash " + str(fmt.Sprint(r)) + ")"
		}
	}()
	d, err := styx.Parse(text)
	if err != nil {
		e, ok := err.(*styx.ParseError)
		if !ok {
			return "(crash " + str("another error: "+err.Error()) + ")"
		}
		return "(error " + span(e.Span) + " " + str(e.Message) + ")"
	}
	var b strings.Builder
	b.WriteString("(document [-1, -1]")
	entries(&b, d.Entries)
	b.WriteByte(')')
	return b.String()
}
func main() {
	in := bufio.NewReader(os.Stdin)
	out := bufio.NewWriter(os.Stdout)
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			return
		}
		n, err := strconv.Atoi(strings.TrimSpace(l))
		if err != nil {
			panic(err)
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(in, b); err != nil {
			panic(err)
		}
		r := parse(string(b))
		fmt.Fprintf(out, "%d\n%s", len(r), r)
		out.Flush()
	}
}
