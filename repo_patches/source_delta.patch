From b87169723fe3fa05261172740e9bfdb2cde24787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 01/29] fix: hyphenate on runes and never lose the end of a
 word

---
 hyphenation/hyphenation.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/hyphenation/hyphenation.go b/hyphenation/hyphenation.go
index bea782f..da28737 100644
--- a/hyphenation/hyphenation.go
+++ b/hyphenation/hyphenation.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"unicode"
 
 	"github.com/pkg/errors"
 )
@@ -36,17 +37,23 @@ func new(pl *patternLookup) *Hyphenator {
 }
 
 func (h *Hyphenator) Hyphenate(s string) []string {
-	if len(s) < 3 {
+	srs := []rune(s)
+	if len(srs) < 3 {
 		//don't hyphenate words with less than 3 runes
 		return []string{s}
 	}
 	if strings.Contains(s, " ") {
 		return []string{s}
 	}
-	if len(s) > 100 {
+	if len(srs) > 100 {
 		return []string{s}
 	}
-	rs := []rune("." + strings.ToLower(s) + ".")
+	rs := []rune{'.'}
+	for _, r := range srs {
+		// lower rune by rune, to keep the weights aligned with the runes of s
+		rs = append(rs, unicode.ToLower(r))
+	}
+	rs = append(rs, '.')
 	ws := make([]int, len(rs)+1)
 	for subSize := 1; subSize <= len(rs); subSize++ {
 		for i := 0; i < len(rs)-subSize+1; i++ {
@@ -69,16 +76,12 @@ func (h *Hyphenator) Hyphenate(s string) []string {
 	//skip next to first and prev. to last for start and end of word
 	for i, w := range ws[2 : len(ws)-2] {
 		if w%2 == 1 {
-			part := s[last : i+1]
-			if len(part) > 1 {
-				sl = append(sl, part)
+			part := srs[last : i+1]
+			if len(part) > 1 && len(srs)-(i+1) > 1 {
+				sl = append(sl, string(part))
 				last = i + 1
 			}
 		}
 	}
-	part := s[last:]
-	if len(part) > 1 {
-		sl = append(sl, part)
-	}
-	return sl
+	return append(sl, string(srs[last:]))
 }
-- 
2.43.0


From e652b35ec1aef0c5d9053fe4a141606536181440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 02/29] fix: do not justify the line that a line break ends

---
 text-hyph.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index e43ad4d..b3d11cc 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -38,10 +38,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		var isitem *textItem
 		switch is := is.(type) {
 		case *xdoc.LineBreak:
-			if len(lines) > 0 {
-				lines[len(lines)-1].paragraph = true
-			}
-
+			curr.paragraph = true
 			lines = append(lines, curr)
 			curr = textLine{}
 			continue
-- 
2.43.0


From 11d18a7e58c2a947f0f10a3a2f08a68183e4dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 03/29] fix: ignore white space between the instructions of a
 block aligned text

---
 text-hyph.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index b3d11cc..86032b1 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -55,6 +55,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 		default:
 			continue
 		}
+		if isitem.text == "" {
+			continue
+		}
 
 		p.changeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
-- 
2.43.0


From 64d5b25df5eeb2fac2af5bcf01d5c464d6d2f36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 04/29] fix: do not leak the font of a text or paragraph into
 its siblings

---
 text-hyph.go | 6 +++---
 text.go      | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 86032b1..3ac4f5f 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -59,7 +59,7 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -123,14 +123,14 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		spaceCnt := len(line.items) - 1
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(item.text)
 			}
 		} else {
 			//subtract another 0.1 to avoid page breaks on equal widths
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
-				p.changeFont(item.sty.Font)
+				p.engine.ChangeFont(item.sty.Font)
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index 773dd4d..7e24019 100644
--- a/text.go
+++ b/text.go
@@ -54,7 +54,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 			continue
 		}
 
-		p.changeFont(isitem.sty.Font)
+		p.engine.ChangeFont(isitem.sty.Font)
 		words := p.words(isitem.text)
 		for _, word := range words {
 			item := &textItem{
@@ -103,7 +103,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 			p.engine.SetX(xLeft + width - line.width)
 		}
 		for _, item := range line.items {
-			p.changeFont(item.sty.Font)
+			p.engine.ChangeFont(item.sty.Font)
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From 3885267f024e0fb678907be7a972969a97c11273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 05/29] fix: no blank line before a word which is wider than
 the line

---
 text-hyph.go | 7 +++++--
 text.go      | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/text-hyph.go b/text-hyph.go
index 3ac4f5f..f69a012 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -71,10 +71,13 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 			if curr.width+itemWidth >= width {
 				//try hyphenation
 				s1, s2, ok := tryHyphenate(item.text, curr.width)
-				if !ok {
+				if !ok && len(curr.items) > 0 {
 					lines = append(lines, curr)
 					curr = textLine{}
-				} else {
+				} else if ok {
+					if len(curr.items) == 0 {
+						s1 = strings.Trim(s1, " ")
+					}
 					curr.items = append(curr.items, &textItem{
 						text: s1,
 						sty:  item.sty,
diff --git a/text.go b/text.go
index 7e24019..d1e5f54 100644
--- a/text.go
+++ b/text.go
@@ -62,7 +62,7 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 				text: word,
 			}
 			itemWidth := p.engine.TextWidth(" " + item.text)
-			if curr.width+itemWidth >= width {
+			if len(curr.items) > 0 && curr.width+itemWidth >= width {
 				lines = append(lines, curr)
 				curr = textLine{}
 			}
-- 
2.43.0


From 71540f0b4649060f88a21a827f7a8d22419f9304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 06/29] fix: the height of a text without lines is zero, not
 negative

---
 text-hyph.go | 3 +++
 text.go      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index f69a012..751602a 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -111,6 +111,9 @@ func (p *Processor) textLinesHyphenated(iss []xdoc.Instruction, width float64, s
 func (p *Processor) textHeightHyphenated(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
 	lines := p.textLinesHyphenated(iss, width, sty)
+	if len(lines) == 0 {
+		return 0
+	}
 	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
 	//subtract line-spacing, to have no space below the last line
 	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
diff --git a/text.go b/text.go
index d1e5f54..a7b503a 100644
--- a/text.go
+++ b/text.go
@@ -83,6 +83,9 @@ func (p *Processor) textLines(iss []xdoc.Instruction, width float64, sty style.S
 func (p *Processor) textHeight(iss []xdoc.Instruction, width float64, sty style.Styles) float64 {
 	p.engine.ChangeFont(sty.Font)
 	lines := p.textLines(iss, width, sty)
+	if len(lines) == 0 {
+		return 0
+	}
 	lineHeight := p.engine.FontHeight() * sty.Dimension.LineSpacing
 	//subtract line-spacing, to have no space below the last line
 	return float64(len(lines))*lineHeight - lineHeight + p.engine.FontHeight()
-- 
2.43.0


From f2a16c2afef5abfc339dc9fb7af252cd75c3e9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:27 +0000
Subject: [PATCH 07/29] fix: apply the text color of a paragraph

---
 text-hyph.go | 2 ++
 text.go      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/text-hyph.go b/text-hyph.go
index 751602a..63c8b1d 100644
--- a/text-hyph.go
+++ b/text-hyph.go
@@ -130,6 +130,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 		if spaceCnt < 1 || line.paragraph {
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(item.text)
 			}
 		} else {
@@ -137,6 +138,7 @@ func (p *Processor) writeTextHyphenated(iss []xdoc.Instruction, width float64, s
 			spaceWidth := (width - 0.1 - line.pureTextWidth) / float64(spaceCnt)
 			for _, item := range line.items {
 				p.engine.ChangeFont(item.sty.Font)
+				p.engine.SetTextColor(item.sty.Text.Values())
 				p.engine.WriteText(strings.Trim(item.text, " "))
 				cx, _ := p.engine.GetXY()
 				p.engine.SetX(cx + spaceWidth)
diff --git a/text.go b/text.go
index a7b503a..89c47fb 100644
--- a/text.go
+++ b/text.go
@@ -107,6 +107,7 @@ func (p *Processor) writeText(iss []xdoc.Instruction, width float64, sty style.S
 		}
 		for _, item := range line.items {
 			p.engine.ChangeFont(item.sty.Font)
+			p.engine.SetTextColor(item.sty.Text.Values())
 			p.engine.WriteText(item.text)
 		}
 		p.engine.LineFeed(sty.LineSpacing)
-- 
2.43.0


From a129ea8805a55294b4d9ea3777462ad9a062915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 08/29] fix: keep the font of header and footer out of the body

---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index b523714..375da7d 100644
--- a/process.go
+++ b/process.go
@@ -52,8 +52,10 @@ func (p *Processor) Process(w io.Writer) error {
 	p.engine.SetPageCountAlias("{np}")
 	p.engine.OnHeader(func() {
 		x, y := p.engine.GetXY()
+		styles := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
+			p.currStyles = styles
 			p.engine.SetX(x)
 			p.engine.SetY(y)
 			p.preventPageBreak = false
@@ -62,8 +64,10 @@ func (p *Processor) Process(w io.Writer) error {
 	})
 	p.engine.OnFooter(func() {
 		x, y := p.engine.GetXY()
+		styles := p.currStyles
 		p.preventPageBreak = true
 		defer func() {
+			p.currStyles = styles
 			p.engine.SetX(x)
 			p.engine.SetY(y)
 			p.preventPageBreak = false
-- 
2.43.0


From 23a54a989ae680e5ae3a8be034d07746b382d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 09/29] fix: no endless recursion on a page break in header or
 footer

---
 process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 375da7d..f2bcd9a 100644
--- a/process.go
+++ b/process.go
@@ -143,7 +143,9 @@ func (p *Processor) processInstructions(is xdoc.Instructions) {
 		case *xdoc.Grid:
 			p.renderGrid(i, p.page().printableArea)
 		case *xdoc.PageBreak:
-			p.engine.AddPage()
+			if !p.preventPageBreak {
+				p.engine.AddPage()
+			}
 		}
 	}
 }
-- 
2.43.0


From 870489a65a581b82ca826ad3d059b03fa7760edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 10/29] fix: consider the padding when checking if a box fits
 on the page

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index f2bcd9a..18c8928 100644
--- a/process.go
+++ b/process.go
@@ -197,7 +197,7 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	x0, y0 := p.engine.GetXY()
 	_, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
-	if !p.preventPageBreak && y0+height >= effHeight {
+	if !p.preventPageBreak && y0+height+sty.Box.Padding.Top+sty.Box.Padding.Bottom >= effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
 	}
-- 
2.43.0


From de041814c3cee0887a2a6f7aed724f366fd2014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 11/29] fix: continue at the left margin after an empty box as
 after any other box

---
 process.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/process.go b/process.go
index 18c8928..9c58bd3 100644
--- a/process.go
+++ b/process.go
@@ -213,6 +213,8 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	if len(box.ISS) > 0 {
 		p.writeTextFnc(sty)(box.ISS, width, sty)
 	}
+	lm, _, _, _ := p.engine.Margins()
+	p.engine.SetX(lm)
 	p.engine.SetY(y1)
 }
 
-- 
2.43.0


From 6507743e2c413bdb50a53f27893fe01ca26a7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 12/29] fix: align block aligned cells vertically by their
 hyphenated height

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 7f9a8eb..3fb063e 100644
--- a/table.go
+++ b/table.go
@@ -401,7 +401,7 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 
 	paddedPa := pa.WithPadding(cell.Padding)
 	if len(cell.iss) > 0 {
-		textHeight := p.textHeight(cell.iss, paddedPa.Width(), cell.Styles)
+		textHeight := p.textHeightFnc(cell.Styles)(cell.iss, paddedPa.Width(), cell.Styles)
 		textMargin := paddedPa.Height() - textHeight
 		switch cell.VAlign {
 		case style.VAlignMiddle:
-- 
2.43.0


From 2624f21169c3b2040e81f90589d535a1227aeda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 13/29] fix: start each box and image of a cell at the left of
 the cell

---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 3fb063e..aeac895 100644
--- a/table.go
+++ b/table.go
@@ -416,8 +416,8 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 		p.writeTextFnc(cell.Styles)(cell.iss, pa.Width()-cell.Padding.Left-cell.Padding.Right, cell.Styles)
 	}
 
-	p.engine.SetX(paddedPa.x0)
 	for _, is := range cell.iss {
+		p.engine.SetX(paddedPa.x0)
 		switch is := is.(type) {
 		case *xdoc.Box:
 			height := p.textBoxHeight(is, paddedPa)
-- 
2.43.0


From 55b70ab3d46a637d82f39c5e434f52516f078855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 14/29] fix: align the boxes of a cell vertically within the
 cell

---
 process.go | 2 +-
 table.go   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/process.go b/process.go
index 9c58bd3..c1f3053 100644
--- a/process.go
+++ b/process.go
@@ -175,7 +175,7 @@ func (p *Processor) textBoxHeight(box *xdoc.Box, pa PrintableArea) float64 {
 	} else {
 		height = sty.Dimension.Height
 	}
-	return height
+	return height + sty.Padding.Top + sty.Padding.Bottom
 }
 
 func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
diff --git a/table.go b/table.go
index aeac895..4afacfc 100644
--- a/table.go
+++ b/table.go
@@ -423,9 +423,9 @@ func (p *Processor) renderCell(pa PrintableArea, cell *tableCell) {
 			height := p.textBoxHeight(is, paddedPa)
 			switch cell.VAlign {
 			case style.VAlignMiddle:
-				p.engine.SetY(paddedPa.y0 + height/2)
+				p.engine.SetY(paddedPa.y0 + (paddedPa.Height()-height)/2)
 			case style.VAlignBottom:
-				p.engine.SetY(paddedPa.y0 + height)
+				p.engine.SetY(paddedPa.y0 + paddedPa.Height() - height)
 			default: //style.VAlignTop:
 				p.engine.SetY(paddedPa.y0)
 			}
-- 
2.43.0


From c60b6584b807331a481750b5815cdbce55e2cd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:12 +0000
Subject: [PATCH 15/29] fix: describe the left margin

---
 xdoc/describe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 21d6fce..3d44d56 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -123,7 +123,7 @@ func (desc *Description) describeMargins(margins Margins) []DescribeItem {
 	return []DescribeItem{
 		{
 			Name:  "left",
-			Value: margins.Right,
+			Value: margins.Left,
 		},
 		{
 			Name:  "top",
-- 
2.43.0


From ce4577d8bf68d709c081897fe99a8ea317f29847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 16/29] fix: list style differences in a fixed order

---
 xdoc/diff.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xdoc/diff.go b/xdoc/diff.go
index 64be1a6..918ee81 100644
--- a/xdoc/diff.go
+++ b/xdoc/diff.go
@@ -2,6 +2,7 @@ package xdoc
 
 import (
 	"encoding/json"
+	"sort"
 
 	"github.com/mazzegi/xpdf/style"
 	"github.com/pkg/errors"
@@ -30,7 +31,13 @@ func interfaceDiff(path string, org interface{}, mod interface{}) ([]Diff, error
 	diffs := []Diff{}
 	switch org := org.(type) {
 	case map[string]interface{}:
-		for orgKey, orgVal := range org {
+		orgKeys := make([]string, 0, len(org))
+		for orgKey := range org {
+			orgKeys = append(orgKeys, orgKey)
+		}
+		sort.Strings(orgKeys)
+		for _, orgKey := range orgKeys {
+			orgVal := org[orgKey]
 			modMSI, ok := mod.(map[string]interface{})
 			if !ok {
 				return nil, errors.Errorf("%s: org value is map-string-iface. mod is %T", path, mod)
-- 
2.43.0


From 9fa1b37a81a757730148f3c24cda59f72b01a71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 17/29] fix: do not merge words when describing a text

---
 xdoc/describe.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/xdoc/describe.go b/xdoc/describe.go
index 3d44d56..e94a1ec 100644
--- a/xdoc/describe.go
+++ b/xdoc/describe.go
@@ -10,9 +10,7 @@ import (
 )
 
 func clearStr(s string) string {
-	s = strings.ReplaceAll(s, "\n", "")
-	s = strings.ReplaceAll(s, "  ", "")
-	return strings.Trim(s, " ")
+	return strings.Join(strings.Fields(s), " ")
 }
 
 type DescribeItem struct {
-- 
2.43.0


From 85092e9889b54479db851047d205b4b2ef91b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 18/29] fix: report read errors when loading hyphenation
 patterns

---
 hyphenation/pattern.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyphenation/pattern.go b/hyphenation/pattern.go
index afc59b7..140ec28 100644
--- a/hyphenation/pattern.go
+++ b/hyphenation/pattern.go
@@ -92,5 +92,8 @@ func parsePatterns(r io.Reader) (*patternLookup, error) {
 		}
 		pl.patterns[string(p.Letters)] = p
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, errors.Wrap(err, "scan-patterns")
+	}
 	return pl, nil
 }
-- 
2.43.0


From 3772d9c49de8e9ed6db271e36ac61802a8c6df01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 19/29] fix: do not print to stdout when decoding style classes

---
 style/class.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/style/class.go b/style/class.go
index 8c255fd..d4f59d7 100644
--- a/style/class.go
+++ b/style/class.go
@@ -2,7 +2,6 @@ package style
 
 import (
 	"bytes"
-	"fmt"
 	"io"
 	"io/ioutil"
 	"strings"
@@ -94,7 +93,6 @@ func DecodeClasses(r io.Reader) (Classes, error) {
 					Name:    selName,
 					mutator: mut,
 				}
-				fmt.Printf("added selector (%s) to class (%s) \n", selName, className)
 			} else {
 				return nil, errors.Errorf("no base class for (%s:%s)", className, selName)
 			}
-- 
2.43.0


From 7eeeccaa644ce7008df2797d93a2d7b65f2741f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 20/29] fix: report invalid instructions in table cells and
 grids instead of dropping them

---
 xdoc/grid.go     | 10 ++++++++--
 xdoc/registry.go |  5 +++++
 xdoc/table.go    |  5 ++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/xdoc/grid.go b/xdoc/grid.go
index d0b9aa2..f9e3628 100644
--- a/xdoc/grid.go
+++ b/xdoc/grid.go
@@ -61,9 +61,12 @@ func (g *Grid) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return g.Validate()
 			}
 		case xml.StartElement:
+			if !registry.contains(t.Name.Local) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			switch i := i.(type) {
 			case *GridPart:
@@ -117,9 +120,12 @@ func (p *GridPart) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.contains(t.Name.Local) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			p.Instructions.ISS = append(p.Instructions.ISS, i)
 		}
diff --git a/xdoc/registry.go b/xdoc/registry.go
index da8391d..660244e 100644
--- a/xdoc/registry.go
+++ b/xdoc/registry.go
@@ -65,6 +65,11 @@ func (r *Registry) RegisterInstruction(prototype Instruction) error {
 	return nil
 }
 
+func (r *Registry) contains(name string) bool {
+	_, ok := r.instructions[name]
+	return ok
+}
+
 func (r *Registry) DecodeInstruction(d *xml.Decoder, start xml.StartElement) (Instruction, error) {
 	proto, contains := r.instructions[start.Name.Local]
 	if !contains {
diff --git a/xdoc/table.go b/xdoc/table.go
index a280462..0881a74 100644
--- a/xdoc/table.go
+++ b/xdoc/table.go
@@ -124,9 +124,12 @@ func (cell *TableCell) UnmarshalXML(d *xml.Decoder, start xml.StartElement) erro
 				return nil
 			}
 		case xml.StartElement:
+			if !registry.contains(t.Name.Local) {
+				continue
+			}
 			i, err := registry.DecodeInstruction(d, t)
 			if err != nil {
-				continue
+				return err
 			}
 			cell.Instructions.ISS = append(cell.Instructions.ISS, i)
 		case xml.CharData:
-- 
2.43.0


From 8c433db53d651ee2d48f60c62820003e5e51d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 21/29] fix: do not panic on characters outside the basic
 multilingual plane

---
 engine/fpdf.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index c24e082..a512583 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -3,6 +3,8 @@ package engine
 import (
 	"io"
 	"io/ioutil"
+	"strings"
+	"unicode/utf8"
 
 	"github.com/jung-kurt/gofpdf/v2"
 	"github.com/mazzegi/xpdf/font"
@@ -80,7 +82,15 @@ func NewFPDF(fonts *font.Registry, doc *xdoc.Document) (*FPDF, error) {
 
 	//TODO: make code-page for unicode translator an option (per font?)
 	//e.translateUnicode = e.pdf.UnicodeTranslatorFromDescriptor("")
-	e.translateUnicode = func(s string) string { return s }
+	e.translateUnicode = func(s string) string {
+		return strings.Map(func(r rune) rune {
+			if r > 0xFFFF {
+				// utf8-fonts only provide widths for the basic multilingual plane
+				return utf8.RuneError
+			}
+			return r
+		}, s)
+	}
 	return e, nil
 }
 
-- 
2.43.0


From c539f7857c474b8f7085501d8cf423ad454848f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:11 +0000
Subject: [PATCH 22/29] fix: let column and row spans of a table share a
 consistent grid

---
 table.go | 71 +++++++++++++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 31 deletions(-)

diff --git a/table.go b/table.go
index 4afacfc..d26712c 100644
--- a/table.go
+++ b/table.go
@@ -191,41 +191,50 @@ func (t *table) processColumnSpans() {
 }
 
 func (t *table) processRowSpans() {
-	for ir, row := range t.rows {
-		for ic, cell := range row.cells {
-			if cell.rowSpan <= 1 {
+	type rowSpan struct {
+		cell     *tableCell
+		rowsLeft int
+	}
+	//spans from rows above by column index
+	spans := map[int]rowSpan{}
+	for ir := 0; ir < len(t.rows) || len(spans) > 0; ir++ {
+		if ir == len(t.rows) {
+			t.rows = append(t.rows, &tableRow{})
+		}
+		row := t.rows[ir]
+		cells := row.cells
+		row.cells = nil
+		spansToInsert := len(spans)
+		for ic := 0; len(cells) > 0 || spansToInsert > 0; ic++ {
+			if span, ok := spans[ic]; ok {
+				//insert spanned cell
+				newCell := &tableCell{
+					spannedBy: span.cell,
+				}
+				if span.cell.spannedBy != nil {
+					newCell.spannedBy = span.cell.spannedBy
+				}
+				span.cell.spansRows = append(span.cell.spansRows, newCell)
+				row.cells = append(row.cells, newCell)
+				spansToInsert--
+				span.rowsLeft--
+				spans[ic] = span
+				if span.rowsLeft == 0 {
+					delete(spans, ic)
+				}
 				continue
 			}
-			if cell.spannedBy != nil || cell.zero {
+			if len(cells) == 0 {
+				row.cells = append(row.cells, &tableCell{
+					zero: true,
+				})
 				continue
 			}
-			//insert spanned cell in following rows
-			for n := 0; n < cell.rowSpan-1; n++ {
-				spannedRowIdx := ir + 1 + n
-
-				var spannedRow *tableRow
-				if spannedRowIdx >= len(t.rows) {
-					spannedRow = &tableRow{}
-					t.rows = append(t.rows, spannedRow)
-				} else {
-					spannedRow = t.rows[spannedRowIdx]
-				}
-				for ic > len(spannedRow.cells) {
-					spannedRow.cells = append(spannedRow.cells, &tableCell{
-						zero: true,
-					})
-				}
-
-				newCell := &tableCell{
-					spannedBy: cell,
-				}
-				cell.spansRows = append(cell.spansRows, newCell)
-
-				newCells := make([]*tableCell, ic)
-				copy(newCells, spannedRow.cells[:ic])
-				newCells = append(newCells, newCell)
-				newCells = append(newCells, spannedRow.cells[ic:]...)
-				spannedRow.cells = newCells
+			cell := cells[0]
+			cells = cells[1:]
+			row.cells = append(row.cells, cell)
+			if cell.rowSpan > 1 {
+				spans[ic] = rowSpan{cell: cell, rowsLeft: cell.rowSpan - 1}
 			}
 		}
 	}
-- 
2.43.0


From 4b9cc8f658aad854c6f0c66d211c38a5d1c85624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 23/29] fix: consider the vertical offset of a box in its page
 break check

A box with offset-y was checked at its position without the offset: its
frame ran over the bottom margin and the last lines of its text went to
the next page.
---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index c1f3053..404c85e 100644
--- a/process.go
+++ b/process.go
@@ -197,7 +197,7 @@ func (p *Processor) renderTextBox(box *xdoc.Box, pa PrintableArea) {
 	x0, y0 := p.engine.GetXY()
 	_, _, _, bm := p.engine.Margins()
 	effHeight := p.engine.PageHeight() - bm
-	if !p.preventPageBreak && y0+height+sty.Box.Padding.Top+sty.Box.Padding.Bottom >= effHeight {
+	if !p.preventPageBreak && y0+sty.Dimension.OffsetY+height+sty.Box.Padding.Top+sty.Box.Padding.Bottom >= effHeight {
 		p.engine.AddPage()
 		x0, y0 = p.engine.GetXY()
 	}
-- 
2.43.0


From b2fb2f21c95315b472a7995d429fd5cadb64bc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:11 +0000
Subject: [PATCH 24/29] fix: count the rows spanned by header cells only once
 when placing a table

The height of the header rows was the sum of the heights of their highest
cells, so rows covered by a row span counted twice and a table with such a
header was moved to a new page although it fits.
---
 table.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index d26712c..397cff3 100644
--- a/table.go
+++ b/table.go
@@ -2,6 +2,7 @@ package xpdf
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/mazzegi/xpdf/style"
@@ -376,10 +377,11 @@ func (p *Processor) renderTable(xtab *xdoc.Table) {
 
 	//check if we have to start a new page for the entire table
 	if !p.preventPageBreak {
-		var headHeight float64
+		var headHeight, rowsHeight float64
 		for i := 0; i < xtab.RepeatHeader+1; i++ {
 			if i < len(tab.rows) {
-				headHeight += tab.rows[i].maxCellHeight()
+				headHeight = math.Max(headHeight, rowsHeight+tab.rows[i].maxCellHeight())
+				rowsHeight += tab.rows[i].height
 			}
 		}
 		if y+headHeight > page.printableArea.y1 {
-- 
2.43.0


From d08bac7e3828c26d91ac0691e480e349300a2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:53 +0000
Subject: [PATCH 25/29] fix: draw header and footer in the default font on
 every page

Header and footer started with whatever font the body had in force when the
page ended, so without a font of their own they looked different from page
to page.
---
 process.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/process.go b/process.go
index 404c85e..631fecd 100644
--- a/process.go
+++ b/process.go
@@ -60,6 +60,8 @@ func (p *Processor) Process(w io.Writer) error {
 			p.engine.SetY(y)
 			p.preventPageBreak = false
 		}()
+		p.currStyles = DefaultStyle()
+		p.resetStyles()
 		p.processInstructions(p.doc.Header)
 	})
 	p.engine.OnFooter(func() {
@@ -72,6 +74,8 @@ func (p *Processor) Process(w io.Writer) error {
 			p.engine.SetY(y)
 			p.preventPageBreak = false
 		}()
+		p.currStyles = DefaultStyle()
+		p.resetStyles()
 		p.processInstructions(p.doc.Footer)
 	})
 
-- 
2.43.0


From 28d4f821263d9821222912f004ed4cb22693ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 26/29] fix: start the footer at the left margin on every page

---
 process.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/process.go b/process.go
index 631fecd..82e401f 100644
--- a/process.go
+++ b/process.go
@@ -76,6 +76,9 @@ func (p *Processor) Process(w io.Writer) error {
 		}()
 		p.currStyles = DefaultStyle()
 		p.resetStyles()
+		// start at the left margin, wherever the body left off
+		lm, _, _, _ := p.engine.Margins()
+		p.engine.SetX(lm)
 		p.processInstructions(p.doc.Footer)
 	})
 
-- 
2.43.0


From b765a3d01bbd81b6addff9f1fc4c6b6932d6502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 27/29] fix: return an error for damaged font files instead of
 panicking

---
 engine/fpdf.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index a512583..bee3b0a 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -116,19 +116,32 @@ func (e *FPDF) initFonts(fonts *font.Registry) error {
 		default:
 			sty = ""
 		}
-		e.pdf.AddUTF8FontFromBytes(fd.Name, sty, bs)
-		if e.pdf.Error() != nil {
-			return e.pdf.Error()
-		}
-		return nil
+		return errors.Wrapf(e.addFont(fd.Name, sty, bs), "add font %q", fd.FilePath)
 	})
 }
 
+// addFont returns an error for damaged fonts, on which gofpdf panics.
+func (e *FPDF) addFont(name string, sty string, bs []byte) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("invalid font: %v", r)
+		}
+	}()
+	e.pdf.AddUTF8FontFromBytes(name, sty, bs)
+	return e.pdf.Error()
+}
+
 func (e *FPDF) Error() error {
 	return e.pdf.Error()
 }
 
-func (e *FPDF) WritePDF(w io.Writer) error {
+func (e *FPDF) WritePDF(w io.Writer) (err error) {
+	// fonts are embedded here, gofpdf panics on damaged ones
+	defer func() {
+		if r := recover(); r != nil {
+			err = errors.Errorf("write pdf: %v", r)
+		}
+	}()
 	return e.pdf.Output(w)
 }
 
-- 
2.43.0


From 6ce1ace18dec5fbcf2592f8526483fd12bd326a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 28/29] fix: return an error for damaged images instead of
 panicking

---
 engine/fpdf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/fpdf.go b/engine/fpdf.go
index bee3b0a..7a84759 100644
--- a/engine/fpdf.go
+++ b/engine/fpdf.go
@@ -203,7 +203,13 @@ func (e *FPDF) PageWidth() float64 {
 	return pw
 }
 
+// PutImage reports damaged images, on which gofpdf panics, as error of the engine.
 func (e *FPDF) PutImage(src string, x, y, width, height float64) {
+	defer func() {
+		if r := recover(); r != nil {
+			e.pdf.SetError(errors.Errorf("invalid image %q: %v", src, r))
+		}
+	}()
 	e.pdf.ImageOptions(src, x, y, width, height, false, gofpdf.ImageOptions{}, 0, "")
 }
 
-- 
2.43.0


From 930e8bd2b08dd69b6603c5ccc3cc4327b178fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 29/29] fix: reject four-sided values followed by anything else

---
 style/box.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/style/box.go b/style/box.go
index 22bf403..7304f9b 100644
--- a/style/box.go
+++ b/style/box.go
@@ -3,6 +3,7 @@ package style
 import (
 	"bytes"
 	"fmt"
+	"strings"
 
 	"github.com/pkg/errors"
 )
@@ -35,7 +36,7 @@ type Box struct {
 }
 
 func (b *Border) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	err := scanSides(v, "%d,%d,%d,%d", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan border value (%s)", v)
 	}
@@ -43,7 +44,7 @@ func (b *Border) UnmarshalStyle(v string) error {
 }
 
 func (b *Padding) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	err := scanSides(v, "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan padding value (%s)", v)
 	}
@@ -51,9 +52,22 @@ func (b *Padding) UnmarshalStyle(v string) error {
 }
 
 func (b *Margin) UnmarshalStyle(v string) error {
-	_, err := fmt.Fscanf(bytes.NewBufferString(v), "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
+	err := scanSides(v, "%f,%f,%f,%f", &b.Left, &b.Top, &b.Right, &b.Bottom)
 	if err != nil {
 		return errors.Wrapf(err, "scan margin value (%s)", v)
 	}
 	return nil
 }
+
+// scanSides scans the values of the four sides, after which v must end
+func scanSides(v string, format string, sides ...interface{}) error {
+	buf := bytes.NewBufferString(v)
+	_, err := fmt.Fscanf(buf, format, sides...)
+	if err != nil {
+		return err
+	}
+	if rest := strings.TrimSpace(buf.String()); rest != "" {
+		return errors.Errorf("unexpected %q", rest)
+	}
+	return nil
+}
-- 
2.43.0

