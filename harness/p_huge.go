package main

import (
	"strings"
)

// ---- C03 to C09, the place of interest a megabyte or more away

// HugeCase is a history on a text that is too large to write down: a filler of Size
// bytes with the needle behind or before it. An argument that is the text "@" stands
// for the filler, one that ends with "@" for what comes before that with the filler.
type HugeCase struct {
	Unit   string `json:"unit"`
	Size   int    `json:"size"`
	Needle string `json:"needle"`
	Back   bool   `json:"needle_first"` // and point at the end
	Is     []Val  `json:"instructions"`
}

func (c *HugeCase) fill() string {
	return strings.Repeat(c.Unit, c.Size/len(c.Unit)) + strings.Repeat("-", c.Size%len(c.Unit))
}

func runHuge(prop string, c *HugeCase, r *Rec) {
	if c.Unit == "" || c.Size < 0 || c.Size > 1<<27 {
		return
	}
	fill := c.fill()
	h := &HistCase{Text: B("b\n" + fill + c.Needle + "\nend"), P: 1, M: 3}
	if c.Back {
		h.Text = B("b\n" + c.Needle + fill)
		h.P = len(h.Text) + 1
	}
	var subst func(v Val) Val
	subst = func(v Val) Val {
		if v.K == "s" && strings.HasSuffix(string(v.S), "@") {
			return VS(strings.TrimSuffix(string(v.S), "@") + fill + c.Needle)
		}
		if v.K == "l" {
			l := make([]Val, len(v.L))
			for i, x := range v.L {
				l[i] = subst(x)
			}
			v.L = l
		}
		return v
	}
	for _, v := range c.Is {
		h.Is = append(h.Is, subst(v))
	}
	runHist(prop, h, r)
}

func enumHuge(prop string) func(tier string, yield func(*HugeCase) bool) {
	return func(tier string, yield func(*HugeCase) bool) {
		sizes := []int{1<<20 - 7, 1 << 20, 1<<20 + 1, 1500000, 1<<21 + 5, 5000000, 1<<23 + 1}
		if tier == "thorough" {
			sizes = append(sizes, 1<<19+3, 1<<22+1, 10000001, 1<<24+1, 1<<25+9)
		}
		for _, size := range sizes {
			for _, unit := range []string{"-", "w", "ab\n", "\n"} {
				for _, back := range []bool{false, true} {
					needle := "XYZ"
					n, lines := VI(size), VI(1+strings.Count(unit, "\n")*size/len(unit))
					past := VI(size + 2)
					var list [][]Val
					is := func(v ...Val) { list = append(list, v) }
					switch prop {
					case "C03":
						if back {
							is(Call("delete-backward-char", n))
							is(Call("backward-kill-word", VI(2)))
							break
						}
						is(Call("goto-char", VI(3)), Call("delete-char", n))
						is(Call("kill-word", VI(2)))
						is(Call("goto-char", VI(3)), Call("kill-line"))
						is(Call("goto-char", VI(3)), Call("kill-line", lines))
						is(Call("delete-line", lines))
						is(Call("goto-char", past), Call("insert", VS("@")), Call("delete-line"))
					case "C04":
						if back {
							is(Call("backward-char", n))
							is(Call("backward-word"))
							is(Call("beginning-of-line"))
							is(Call("goto-line", lines))
							break
						}
						is(Call("forward-char", past), Call("beginning-of-line"))
						is(Call("goto-char", VI(3)), Call("forward-word"), Call("backward-word"))
						is(Call("goto-char", VI(3)), Call("end-of-line"))
						is(Call("goto-line", lines))
						is(Call("end-of-buffer"), Call("beginning-of-buffer"), Call("goto-char", past))
					case "C05", "C06":
						s := []Val{Call("search-forward", VS(needle)), Call("re-search-forward", VS("X.Z")), Call("re-search-forward", VS("[XQ]"))}
						if back {
							s = []Val{Call("search-backward", VS(needle)), Call("re-search-backward", VS("X.Z")), Call("re-search-backward", VS("[XQ]"))}
						}
						for _, v := range s {
							if prop == "C05" {
								is(v)
								is(Call("goto-char", VI(1+size/2)), v)
								is(v, Call(v.Fn(), VS("QQ")))
							} else {
								is(v, Call("beginning-of-buffer"), Call("replace-match", VS("new")))
								is(v, Call("replace-match", VS("@")), Call("point"))
							}
						}
						if prop == "C06" && !back {
							is(Call("search-forward", VS("@")), Call("replace-match", VS("r")))
							is(Call("re-search-forward", VS("(?s).*Z")), Call("replace-match", VS("r")))
						}
					case "C07":
						if back {
							is(Call("set-mark"), Call("goto-char", VI(3)), Call("exchange-point-and-mark"), Call("delete-region"))
							is(Call("goto-char", VI(size)), Call("mark-word"))
							break
						}
						is(Call("goto-char", VI(3)), Call("mark-word"), Call("replace-region", VS("r")))
						is(Call("goto-char", VI(3)), Call("mark-line", lines))
						is(Call("mark-whole-buffer"), Call("replace-region", VS("@")), Call("delete-region"))
						is(Call("set-mark-command", past), Call("region-end"), Call("region-beginning"), Call("replace-region", VS("r")))
					case "C08":
						if back {
							is(Call("line-number-at-pos"), Call("looking-back", VS("-+|w+|[ab\\n]+")))
							is(Call("point"), Call("buffer-size"), Call("point-max"))
							is(Call("current-column"))
							break
						}
						is(Call("goto-char", past), Call("line-number-at-pos"), Call("mark"))
						is(Call("buffer-substring", VI(1), VI(-1)))
						is(Call("buffer-substring", VI(3), past))
						is(Call("looking-at", VS("(?s).*XYZ")), Call("end-of-buffer"), Call("looking-back", VS("\nend")))
					case "C09":
						if back {
							break
						}
						is(Call("length", VS("@")))
						is(Call("substring", VS("@"), VI(2), past), Call("substring", VS("@"), VI(size)))
						is(Call("concat", VS("@"), VS("x"), VS("@")))
						is(Call("upcase", VS("@")), Call("downcase", VS("@")), Call("capitalize", VS("@")))
						is(Call("string-match", VS("X.Z"), VS("@")), Call("string-match", VS("Q"), VS("@")))
						is(Call("replace-regexp-in-string", VS("XYZ|QQ"), VS("r"), VS("@")))
						is(Call("replace-regexp-in-string", VS("[-wb\n]+"), VS("<$0>"), VS("@")))
					}
					for _, l := range list {
						if !yield(&HugeCase{Unit: unit, Size: size, Needle: needle, Back: back, Is: l}) {
							return
						}
					}
				}
			}
		}
	}
}

func hugeSpec(prop string) *Spec {
	return enum(mkSpec("huge texts", nil, func(c *HugeCase, r *Rec) { runHuge(prop, c, r) }), enumHuge(prop))
}
