package checks

import (
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"

	"github.com/mazzegi/xpdf/xdoc"

	"verif/harness/run"
	"verif/harness/sut"
)

type ownInstruction struct {
	xdoc.Styled
	XMLName xml.Name `xml:"own"`
	Note    string   `xml:"note,attr"`
	Text    string   `xml:",chardata"`
}

type namelessInstruction struct {
	xdoc.Styled
	Text string `xml:",chardata"`
}

type valueInstruction struct {
	*xdoc.Styled
	XMLName xml.Name `xml:"value"`
}

// c18registry checks a registry of the harness' own: what is not registered is
// refused, what is registered is decoded into fresh instructions of its type.
func c18registry(c *run.Case, g *gen) {
	if pn := sut.Protect(func() {
		protos := map[string]xdoc.Instruction{"font": &xdoc.Font{}, "box": &xdoc.Box{}, "text": &xdoc.Text{}, "image": &xdoc.Image{}, "p": &xdoc.Paragraph{}, "br": &xdoc.LineBreak{}, "newpage": &xdoc.PageBreak{}, "own": &ownInstruction{}, "table": &xdoc.Table{}}
		r := xdoc.NewRegistry()
		has := map[string]bool{}
		var names []string
		for _, n := range []string{"font", "box", "text", "image", "p", "br", "newpage", "own", "table"} {
			names = append(names, n)
			if g.p(60) {
				if err := r.RegisterInstruction(protos[n]); err != nil {
					c.Fail("instruction %s cannot be registered: %v", n, err)
				}
				has[n] = true
			}
		}
		if r.RegisterInstruction(&namelessInstruction{}) == nil {
			c.Fail("an instruction without a name is registered")
		}
		if r.RegisterInstruction(valueInstruction{Styled: &xdoc.Styled{}}) == nil {
			c.Fail("an instruction that is not a pointer is registered")
		}
		var before xdoc.Instruction
		for k := 0; k < 6; k++ {
			n := g.of(append(names, "nothing", "Own", "value", "")...)
			if n == "" {
				n = "x"
			}
			word := g.word()
			text := fmt.Sprintf(`<%s class="%s b" style="width: 7" note="%s"/>`, n, word, word)
			d := xml.NewDecoder(strings.NewReader(text))
			tok, err := d.Token()
			if err != nil {
				c.HarnessError("token: %v", err)
				return
			}
			i, err := r.DecodeInstruction(d, tok.(xml.StartElement))
			c.Count("own registries", 1)
			if !has[n] {
				if err == nil {
					c.Fail("%s is decoded, but not registered", text)
				}
				continue
			}
			if err != nil {
				c.Fail("%s is registered, but not decoded: %v", text, err)
				continue
			}
			if reflect.TypeOf(i) != reflect.TypeOf(protos[n]) {
				c.Fail("%s is decoded to a %T", text, i)
				continue
			}
			if reflect.ValueOf(i).Pointer() == reflect.ValueOf(protos[n]).Pointer() || before != nil && reflect.ValueOf(i).Pointer() == reflect.ValueOf(before).Pointer() && reflect.TypeOf(i).Elem().Size() > 0 {
				c.Fail("%s is decoded into an instruction there is already", text)
			}
			before = i
			if o, ok := i.(*ownInstruction); ok {
				if o.Note != word || len(o.Classes) != 2 || o.Classes[0] != word || len(o.Mutators) != 1 {
					c.Fail("%s is decoded to %+v", text, o)
				}
			}
		}
	}); pn != "" {
		c.Fail("registry: panic: %s", pn)
	}
}
