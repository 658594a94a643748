id='p24-one-read'
prop='P24'
needs='a read that transfers fewer bytes than asked for'
breaks='The command reads the file with a single Read into a buffer of fixed size and takes what arrives for the whole file.'
edits=[('mmvdump/cmd/mmvdump/main.go', '\t"io/ioutil"\n', ''), ('mmvdump/cmd/mmvdump/main.go', '\td, err := ioutil.ReadFile(file)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n', '\tf, err := os.Open(file)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\tdefer f.Close()\n\n\td := make([]byte, 1<<20)\n\tn, err := f.Read(d)\n\tif err != nil {\n\t\tpanic(err)\n\t}\n\td = d[:n]\n')]
pkg='mmvdump/cmd/mmvdump'
demo='package main\n\nimport (\n\t"encoding/binary"\n\t"io/ioutil"\n\t"os"\n\t"os/exec"\n\t"path/filepath"\n\t"strings"\n\t"testing"\n)\n\nfunc build(t *testing.T) (string, []byte) {\n\tbin := filepath.Join(os.Getenv("TMPDIR"), "mmvdump.bin")\n\tif o, err := exec.Command("go", "build", "-o", bin, ".").CombinedOutput(); err != nil {\n\t\tt.Fatal(string(o))\n\t}\n\td, err := ioutil.ReadFile("../../testdata/test1.mmv")\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\treturn bin, d\n}\n\nvar _ = binary.LittleEndian\nvar _ = strings.Contains\n\nfunc TestDemo(t *testing.T) {\n\tbin, d := build(t)\n\t// the file arrives in two pieces\n\tr, w, err := os.Pipe()\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tgo func() {\n\t\tw.Write(d[:len(d)/2])\n\t\texec.Command("sleep", "0.3").Run()\n\t\tw.Write(d[len(d)/2:])\n\t\tw.Close()\n\t}()\n\tc := exec.Command(bin, "/dev/fd/3")\n\tc.ExtraFiles = []*os.File{r}\n\to, err := c.CombinedOutput()\n\tr.Close()\n\tif err != nil {\n\t\tt.Fatal("the command fails on a complete file:", err, string(o[:200]))\n\t}\n}\n'
