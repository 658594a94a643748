id='p24-deferred-flush'
prop='P24'
needs='an output that fails while the buffered text is flushed at the end'
breaks='The command buffers its output and flushes it in a deferred call whose error nobody looks at: it exits successfully although the dump was not delivered.'
edits=[('mmvdump/cmd/mmvdump/main.go', 'import (\n\t"flag"\n', 'import (\n\t"bufio"\n\t"flag"\n'), ('mmvdump/cmd/mmvdump/main.go', '\tfile := flag.Arg(0)\n', '\tout := bufio.NewWriterSize(os.Stdout, 1<<16)\n\tdefer out.Flush()\n\n\tfile := flag.Arg(0)\n'), ('mmvdump/cmd/mmvdump/main.go', 'mmvdump.Write(os.Stdout,', 'mmvdump.Write(out,')]
pkg='mmvdump/cmd/mmvdump'
demo='package main\n\nimport (\n\t"encoding/binary"\n\t"io/ioutil"\n\t"os"\n\t"os/exec"\n\t"path/filepath"\n\t"strings"\n\t"testing"\n)\n\nfunc build(t *testing.T) (string, []byte) {\n\tbin := filepath.Join(os.Getenv("TMPDIR"), "mmvdump.bin")\n\tif o, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {\n\t\tt.Fatal(string(o))\n\t}\n\td, err := ioutil.ReadFile("../../testdata/test1.mmv")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn bin, d\n}\n\nvar _ = binary.LittleEndian\nvar _ = strings.Contains\n\nfunc TestDemo(t *testing.T) {\n\tbin, d := build(t)\n\tin := filepath.Join(os.Getenv("TMPDIR"), "in.mmv")\n\tioutil.WriteFile(in, d, 0644)\n\t// a file that cannot grow beyond 1024 bytes\n\tc := exec.Command("bash", "-c", `trap "" XFSZ; ulimit -f 1; exec "$0" "$1" > "$1.txt"`, bin, in)\n\tif o, err := c.CombinedOutput(); err == nil {\n\t\tt.Fatal("the command succeeds although its output is cut off", string(o))\n\t}\n\tc = exec.Command(bin, in)\n\to, err := c.Output()\n\tif err != nil || !strings.Contains(string(o), "File      = "+in+"\\n") || len(o) < 1000 {\n\t\tt.Fatal("the dump is not printed", err, len(o))\n\t}\n}\n'
