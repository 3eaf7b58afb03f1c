# Behaviour-preserving rewrites of the part of the refresh tool that makes the text of the section.
T = 'tools/parse_and_write_bench.go'
VARIANTS = []
def v(id, *edits):
    VARIANTS.append({'id': id, 'files': {T: [('sub',) + e if e[0] not in ('imp', 'app', 're') else e for e in edits]}, 'fns': None, 'props': ['C20', 'C21']})
LOOP = '''	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}
'''
v('c-switch', (LOOP.strip('\n'), '''	for scanner.Scan() {
		line := scanner.Text()
		switch {
		case strings.HasPrefix(line, benchmark):
			hasBench = true
			lines = append(lines, strings.TrimPrefix(line, benchmark))
		case strings.HasPrefix(line, goos):
			if hasBench {
				lines = append(lines, "")
			}
			lines = append(lines, line)
		case strings.HasPrefix(line, cpu):
			lines = append(lines, line, dashes)
		case anyPrefix(line):
			lines = append(lines, line)
		}
	}'''))
v('c-slice', ('line = strings.TrimPrefix(line, benchmark)', 'if strings.HasPrefix(line, benchmark) {\n\t\t\t\t\tline = line[len(benchmark):]\n\t\t\t\t}'))
v('c-always', ('''			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
''', '''			line = strings.TrimPrefix(line, benchmark)
'''))
v('c-builder', ('lines []string\n', 'lines strings.Builder\n'), ('lines = append(lines, "")', 'lines.WriteByte(\'\\n\')'), ('lines = append(lines, line)', 'lines.WriteString(line)\n\t\t\tlines.WriteByte(\'\\n\')'),
  ('lines = append(lines, dashes)', 'lines.WriteString(dashes + "\\n")'), ('''	final = append(final, []byte(strings.Join(lines, "\\n"))...)
	final = append(final, '\\n')
''', '''	final = append(final, lines.String()...)
'''))
v('c-buffer', ('lines []string\n', 'lines bytes.Buffer\n'), ('lines = append(lines, "")', 'lines.WriteByte(\'\\n\')'), ('lines = append(lines, line)', 'fmt.Fprintln(&lines, line)'),
  ('lines = append(lines, dashes)', 'fmt.Fprintln(&lines, dashes)'), ('''	final = append(final, []byte(strings.Join(lines, "\\n"))...)
	final = append(final, '\\n')
''', '''	final = append(final, lines.Bytes()...)
'''), ('imp', 'fmt'))
v('c-func', (LOOP.strip('\n'), '''	for scanner.Scan() {
		add, bench := format(scanner.Text(), hasBench)
		lines = append(lines, add...)
		hasBench = hasBench || bench
	}'''), ('app', '''
// format returns the lines to show for a line, and whether it is a benchmark result.
func format(line string, hasBench bool) ([]string, bool) {
	if !anyPrefix(line) {
		return nil, false
	}
	if strings.HasPrefix(line, benchmark) {
		return []string{strings.TrimPrefix(line, benchmark)}, true
	}
	var out []string
	if hasBench && strings.HasPrefix(line, goos) {
		out = append(out, "")
	}
	out = append(out, line)
	if strings.HasPrefix(line, cpu) {
		out = append(out, dashes)
	}
	return out, false
}
'''))
v('c-struct', (LOOP.strip('\n'), '''	r := report{}
	for scanner.Scan() {
		r.add(scanner.Text())
	}
	lines, hasBench = r.lines, r.hasBench'''), ('strings.Join(lines, "\\n"))...)', 'strings.Join(lines, "\\n"))...)\n\t_ = hasBench'), ('app', '''
type report struct {
	lines    []string
	hasBench bool
}

func (r *report) add(line string) {
	if !anyPrefix(line) {
		return
	}
	if strings.HasPrefix(line, benchmark) {
		r.hasBench = true
	}
	if r.hasBench && strings.HasPrefix(line, goos) {
		r.lines = append(r.lines, "")
	}
	r.lines = append(r.lines, strings.TrimPrefix(line, benchmark))
	if strings.HasPrefix(line, cpu) {
		r.lines = append(r.lines, dashes)
	}
}
'''))
v('c-bytes', ('line := scanner.Text()', 'line := string(scanner.Bytes())'))
v('c-parse', ('''	scanner := bufio.NewScanner(os.Stdin)
''' + LOOP + '''
	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}
''', '''	lines, err := parse(os.Stdin)
	if err != nil {
		log.Fatalf("failed to read input: %s", err)
	}
'''), ('''	var (
		lines []string
		hasBench = false
	)

''', ''), ('app', '''
func parse(in io.Reader) ([]string, error) {
	var (
		lines    []string
		hasBench bool
	)
	scanner := bufio.NewScanner(in)
''' + LOOP + '''	return lines, scanner.Err()
}
'''))
v('c-alternatives', ('if anyPrefix(line) {', 'if strings.HasPrefix(line, goos) || strings.HasPrefix(line, goarch) || strings.HasPrefix(line, pkg) || strings.HasPrefix(line, cpu) || strings.HasPrefix(line, benchmark) {'),
  ('re', r'func anyPrefix\(in string\) bool \{(.|\n)*?\n\}\n', ''), ('re', r'	validPrefixes = (.|\n)*?\n	\}\n', ''))
v('c-early', ('		if anyPrefix(line) {\n', '		if len(line) == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tif anyPrefix(line) {\n'))
v('c-count', ('hasBench = false', 'benches = 0'), ('hasBench = hasBench || strings.HasPrefix(line, benchmark)', 'if strings.HasPrefix(line, benchmark) {\n\t\t\t\tbenches++\n\t\t\t}'), ('hasBench && ', 'benches > 0 && '), ('if hasBench {', 'if benches > 0 {'))
v('c-bufsize', ('scanner := bufio.NewScanner(os.Stdin)', 'scanner := bufio.NewScanner(os.Stdin)\n\tscanner.Buffer(nil, 1<<20)'))
v('c-make', ('lines []string\n', 'lines = make([]string, 0, 64)\n'))
v('c-index', ('for _, p := range validPrefixes {\n\t\tif strings.HasPrefix(in, p) {', 'for i := 0; i < len(validPrefixes); i++ {\n\t\tif strings.HasPrefix(in, validPrefixes[i]) {'))
v('c-join', ('''	final = append(final, []byte(strings.Join(lines, "\\n"))...)
	final = append(final, '\\n')
''', '''	for _, l := range lines {
		final = append(final, l...)
		final = append(final, '\\n')
	}
'''))
v('c-lasttoo', (LOOP.strip('\n'), '''	for scanner.Scan() {
		if line := scanner.Text(); anyPrefix(line) {
			isBench := strings.HasPrefix(line, benchmark)
			if isBench {
				hasBench = true
			}
			if hasBench && strings.HasPrefix(line, goos) {
				lines = append(lines, "")
			}
			lines = append(lines, strings.TrimPrefix(line, benchmark))
			if !isBench && strings.HasPrefix(line, cpu) {
				lines = append(lines, dashes)
			}
		}
	}'''))
v('c-rawbytes', (LOOP.strip('\n'), '''	for scanner.Scan() {
		raw := scanner.Bytes()
		if !anyPrefix(string(raw)) {
			continue
		}
		if bytes.HasPrefix(raw, []byte(benchmark)) {
			hasBench = true
			lines = append(lines, string(raw[len(benchmark):]))
			continue
		}
		if hasBench && bytes.HasPrefix(raw, []byte(goos)) {
			lines = append(lines, "")
		}
		lines = append(lines, string(raw))
		if bytes.HasPrefix(raw, []byte(cpu)) {
			lines = append(lines, dashes)
		}
	}'''))
