def main(imports, body, extra=""):
    imps = "\n".join('\t"%s"' % i for i in imports)
    return "package main\n\nimport (\n" + imps + "\n)\n\n" + extra + "\nfunc main() {\n" + body + "\n}\n"
U = "github.com/unsafe-risk/utilx/"
SEEDS = [
dict(id="S25", prop="P39", needs="a slice whose first elements print as the empty text",
 breaks="the separator is left out after leading elements that print as nothing, so the count of separators is wrong",
 edits=[("dsx/slicex/slicex.go", "	for i, v := range s {\n		if i != 0 {\n			r += sep\n		}\n		r += fmt.Sprintf", "	for _, v := range s {\n		if r != \"\" {\n			r += sep\n		}\n		r += fmt.Sprintf")],
 demo=main(["fmt", "os", U + "dsx/slicex"], """	if r := slicex.New("", "", "x").Join(","); r != ",,x" {
		fmt.Println(r)
		os.Exit(1)
	}""")),
dict(id="S26", prop="P08", needs="a slice that was cut shorter before, so that old elements lie behind its end",
 breaks="the elements added are the old ones behind the end, not zero values",
 edits=[("dsx/slicex/slicex.go", "	*s = append(*s, make([]T, size)...)\n", "	if n := len(*s) + size; n >= 0 && n <= cap(*s) {\n		*s = (*s)[:n]\n		return s\n	}\n	*s = append(*s, make([]T, size)...)\n")],
 demo=main(["fmt", "os", U + "dsx/slicex"], """	s := slicex.New(1, 2, 3)
	s.Clear().Extend(2)
	if len(*s) != 2 || (*s)[0] != 0 || (*s)[1] != 0 {
		fmt.Println(*s)
		os.Exit(1)
	}""")),
dict(id="S27", prop="P10", needs="a batch size so large that size plus length exceeds the largest integer",
 breaks="batching with a huge size panics instead of giving one batch",
 edits=[("dsx/slicex/slicex.go", "	splits := make([]int, (len(s))/size)\n", "	splits := make([]int, (len(s)+size-1)/size)\n")],
 demo=main(["fmt", "math", "os", U + "dsx/slicex"], """	b := slicex.New(1, 2, 3).Batch(math.MaxInt)
	if len(b) != 1 || len(b[0]) != 3 {
		fmt.Println(b)
		os.Exit(1)
	}""")),
dict(id="S28", prop="P09", needs="a slice with spare capacity that is copied, and then both are appended to or changed",
 breaks="the copy of an empty or fully cut slice shares the memory behind it, so appending to one writes into the other",
 edits=[("dsx/slicex/slicex.go", "	copy := append((*s)[:0:0], *s...)\n", "	copy := append((*s)[:0:0], *s...)\n	if len(*s) == 0 {\n		copy = *s\n	}\n")],
 demo=main(["fmt", "os", U + "dsx/slicex"], """	s := slicex.New(1, 2, 3)
	s.Clear()
	c := s.Copy()
	*c = append(*c, 7)
	*s = append(*s, 8)
	if (*c)[0] != 7 {
		fmt.Println(*c)
		os.Exit(1)
	}""")),
dict(id="S29", prop="P40", needs="an error in the list that has a Format method of its own",
 breaks="the error is printed through its Format method instead of its Error text",
 edits=[("iox/managerx/closex/types.go", "		buf.WriteString(fmt.Sprintf(\"error - %T\\n\", err))\n		buf.WriteString(err.Error())\n		buf.WriteRune('\\n')\n", "		buf.WriteString(fmt.Sprintf(\"error - %T\\n%v\\n\", err, err))\n")],
 demo=main(["fmt", "os", "strings", U + "iox/managerx/closex"], """	t := closex.ErrorList{styled{}}.Error()
	if !strings.Contains(t, "plain") {
		fmt.Println(t)
		os.Exit(1)
	}""", extra="""type styled struct{}

func (styled) Error() string { return "plain" }

func (styled) Format(f fmt.State, verb rune) { fmt.Fprint(f, "styled") }
""")),
dict(id="S30", prop="P40", needs="a list wrapped twice, or joined with other errors",
 breaks="the list is found only directly or one level down",
 edits=[("iox/managerx/closex/types.go", "	var list ErrorList\n	if errors.As(err, &list) {\n		return list, true\n	}\n", "	if list, ok := err.(ErrorList); ok {\n		return list, true\n	}\n	if list, ok := errors.Unwrap(err).(ErrorList); ok {\n		return list, true\n	}\n")],
 demo=main(["fmt", "io", "os", U + "iox/managerx/closex"], """	var err error = closex.ErrorList{io.EOF}
	for i := 0; i < 3; i++ {
		l, ok := closex.AsErrs(err)
		if !ok || len(l) != 1 || l[0] != io.EOF {
			fmt.Println(i, l, ok)
			os.Exit(1)
		}
		err = fmt.Errorf("w: %w", err)
	}""")),
]
