# Behaviour-preserving rewrites of the benchmark refresh tool.
T = 'tools/parse_and_write_bench.go'
VARIANTS = []
def v(id, *edits):
    VARIANTS.append({'id': id, 'files': {T: list(edits)}, 'fns': None, 'props': ['C20'] if id == 't-readlines' else ['C20', 'C21']})

v('t-alias3cap', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	final := allData[:contentStart:contentStart]
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-fromstart', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	restStart := bytes.Index(allData[start:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += start

	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-trunc', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.OpenFile(readmeFile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-helper', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func splice(data []byte, lines []string, from, to int) []byte {
	out := make([]byte, 0, len(data))
	out = append(out, data[:from]...)
	out = append(out, startSentinel...)
	out = append(out, strings.Join(lines, "\n")...)
	out = append(out, '\n')
	return append(out, data[to:]...)
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	final := splice(allData, lines, start, restStart)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-buffer', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var buf bytes.Buffer
	buf.Write(allData[:start])
	buf.Write(bStart)
	buf.WriteString(strings.Join(lines, "\n"))
	buf.WriteByte('\n')
	buf.Write(allData[restStart:])
	final := buf.Bytes()

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-builder', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var sb strings.Builder
	sb.Write(allData[:start])
	sb.WriteString(startSentinel)
	for _, l := range lines {
		sb.WriteString(l)
		sb.WriteByte('\n')
	}
	if len(lines) == 0 {
		sb.WriteByte('\n')
	}
	sb.Write(allData[restStart:])
	final := []byte(sb.String())

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-loopappend', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var final []byte
	final = append(final, allData[:contentStart]...)
	for i, l := range lines {
		if i > 0 {
			final = append(final, '\n')
		}
		final = append(final, l...)
	}
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-concat', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	final := []byte(string(allData[:contentStart]) + strings.Join(lines, "\n") + "\n" + string(allData[restStart:]))

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-sprintf', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	final := []byte(fmt.Sprintf("%s%s%s\n%s", allData[:start], bStart, strings.Join(lines, "\n"), allData[restStart:]))

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-bjoin', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	final := bytes.Join([][]byte{allData[:start], bStart, []byte(strings.Join(lines, "\n")), []byte("\n"), allData[restStart:]}, nil)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-strings', ('new', r'''package main

import (
	"bufio"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	text := string(allData)
	start := strings.Index(text, startSentinel)
	if start < 0 {
		log.Fatalf("no start")
	}
	contentStart := start + len(startSentinel)
	n := strings.Index(text[contentStart:], endSentinel)
	if n < 0 {
		log.Fatalf("no end")
	}
	final := []byte(text[:contentStart] + strings.Join(lines, "\n") + "\n" + text[contentStart+n:])

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-cut', ('new', r'''package main

import (
	"bufio"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	before, rest, ok := strings.Cut(string(allData), startSentinel)
	if !ok {
		log.Fatalf("no start")
	}
	_, after, ok := strings.Cut(rest, endSentinel)
	if !ok {
		log.Fatalf("no end")
	}
	final := []byte(before + startSentinel + strings.Join(lines, "\n") + "\n" + endSentinel + after)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-readfile', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"log"
	"os"
	"path/filepath"
	"strings"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	allData, err := os.ReadFile(readmeFile)
	if err != nil {
		log.Fatalf("x %s", err)
	}

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	if *fWriteOut {
		err = os.WriteFile(readmeFile, final, 0644)
	} else {
		_, err = os.Stdout.Write(final)
	}
	if err != nil {
		log.Fatalf("y %s", err)
	}
}
'''))
v('t-rename', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	if !*fWriteOut {
		os.Stdout.Write(final)
		return
	}
	tmp := readmeFile + ".tmp"
	if err := os.WriteFile(tmp, final, 0644); err != nil {
		log.Fatalf("y %s", err)
	}
	if err := os.Rename(tmp, readmeFile); err != nil {
		log.Fatalf("y %s", err)
	}
}
'''))
v('t-bufio', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	dst := os.Stdout
	if *fWriteOut {
		f, err := os.Create(readmeFile)
		if err != nil {
			log.Fatalf("z %s", err)
		}
		defer f.Close()
		dst = f
	}
	w := bufio.NewWriter(dst)
	w.Write(final)
	if err := w.Flush(); err != nil {
		log.Fatalf("y %s", err)
	}
}
'''))
v('t-pieces', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	io.WriteString(out, string(allData[:contentStart]))
	for _, l := range lines {
		fmt.Fprintln(out, l)
	}
	_, err = out.Write(allData[restStart:])
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-mainloop', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for {
		if !scanner.Scan() {
			break
		}
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-readlines', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func readLines(r io.Reader) ([]string, error) {
	var lines []string
	hasBench := false
	scanner := bufio.NewScanner(r)
	for scanner.Scan() {
		line := scanner.Text()
		if !anyPrefix(line) {
			continue
		}
		if strings.HasPrefix(line, benchmark) {
			hasBench = true
		}
		if hasBench && strings.HasPrefix(line, goos) {
			lines = append(lines, "")
		}
		lines = append(lines, line)
	}
	return lines, scanner.Err()
}

func main() {
	flag.Parse()
	lines, err := readLines(os.Stdin)
	if err != nil {
		log.Fatalf("a %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bStart)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-find', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func findSection(data []byte) (int, int) {
	start := bytes.Index(data, []byte(startSentinel))
	if start < 0 {
		log.Fatalf("no start")
	}
	from := start + len(startSentinel)
	end := bytes.Index(data[from:], []byte(endSentinel))
	if end < 0 {
		log.Fatalf("no end")
	}
	return start, from + end
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	start, restStart := findSection(allData)
	bStart := []byte(startSentinel)
	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
v('t-wronglen', ('new', r'''package main

import (
	"bufio"
	"bytes"
	"flag"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	"github.com/theMPatel/streamvbyte-simdgo/pkg/util"
)

const (
	goos          = "goos"
	goarch        = "goarch"
	pkg           = "pkg"
	cpu           = "cpu"
	benchmark     = "Benchmark"
	dashes        = "--"
	startSentinel = "## Benchmarks\n\n```text\n"
	endSentinel   = "```\n"
)

var (
	validPrefixes = []string{
		goos,
		goarch,
		pkg,
		cpu,
		benchmark,
	}

	readmeFile = filepath.Join(os.Getenv("SBYTE_HOME"), "README.md")
	fWriteOut  = flag.Bool("w", false, "write out to readme")
)

func anyPrefix(in string) bool {
	for _, p := range validPrefixes {
		if strings.HasPrefix(in, p) {
			return true
		}
	}

	return false
}

func main() {
	flag.Parse()
	var (
		lines    []string
		hasBench = false
	)

	scanner := bufio.NewScanner(os.Stdin)
	for scanner.Scan() {
		line := scanner.Text()
		if anyPrefix(line) {
			emitDash := strings.HasPrefix(line, cpu)
			hasBench = hasBench || strings.HasPrefix(line, benchmark)
			emitNewline := hasBench && strings.HasPrefix(line, goos)

			if emitNewline {
				lines = append(lines, "")
			}
			if hasBench {
				line = strings.TrimPrefix(line, benchmark)
			}
			lines = append(lines, line)
			if emitDash {
				lines = append(lines, dashes)
			}
		}
	}

	if err := scanner.Err(); err != nil {
		log.Fatalf("failed to read input: %s", err)
	}

	outputFile, err := os.Open(readmeFile)
	if err != nil {
		log.Fatalf("failed to open file: %s, %s", readmeFile, err)
	}

	allData, err := io.ReadAll(outputFile)
	if err != nil {
		log.Fatalf("failed to read file: %s, %s", readmeFile, err)
	}

	util.SilentClose(outputFile)

	bStart := []byte(startSentinel)
	bEnd := []byte(endSentinel)

	start := bytes.Index(allData, bStart)
	if start < 0 {
		log.Fatalf("couldn't find start sentinel")
	}

	// The closing fence is the first one after the section starts, there may be
	// other code blocks earlier in the file.
	contentStart := start + len(bEnd)
	restStart := bytes.Index(allData[contentStart:], bEnd)
	if restStart < 0 {
		log.Fatalf("couldn't find end sentinel")
	}
	restStart += contentStart

	var final []byte
	final = append(final, allData[:start]...)
	final = append(final, bStart...)
	final = append(final, []byte(strings.Join(lines, "\n"))...)
	final = append(final, '\n')
	final = append(final, allData[restStart:]...)

	var out io.Writer
	if *fWriteOut {
		outputFile, err = os.Create(readmeFile)
		if err != nil {
			log.Fatalf("failed to open file: %s, %s", readmeFile, err)
		}
		defer util.SilentClose(outputFile)
		out = outputFile
	} else {
		out = os.Stdout
	}

	_, err = out.Write(final)
	if err != nil {
		log.Fatalf("failed to write to file: %s, %s", readmeFile, err)
	}
}
'''))
