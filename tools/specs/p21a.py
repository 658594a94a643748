id="p21-absolute-tmp-dir"; prop="P21"
needs="a PCP root other than / (PCP_DIR) and an absolute PCP_TMP_DIR"
breaks="The temporary directory is not taken relative to the PCP root."
edits=[("client.go","""	if present {
		loc = filepath.Join(rootPath, tdir)
	} else {""","""	if present && filepath.IsAbs(tdir) {
		loc = tdir
	} else if present {
		loc = filepath.Join(rootPath, tdir)
	} else {""")]
demo='''
package speed_test

import (
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	speed "github.com/performancecopilot/speed/v4"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") != "" {
		c, err := speed.NewPCPClient("demo")
		if err != nil {
			t.Fatal(err)
		}
		c.MustStart()
		return
	}
	d := os.TempDir()
	root, tmp := filepath.Join(d, "root"), filepath.Join(d, "t")
	if err := os.MkdirAll(filepath.Join(root, "etc"), 0700); err != nil {
		t.Fatal(err)
	}
	if err := ioutil.WriteFile(filepath.Join(root, "etc", "pcp.conf"), []byte("PCP_TMP_DIR="+tmp+"\\n"), 0600); err != nil {
		t.Fatal(err)
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	for _, e := range os.Environ() {
		if len(e) < 4 || e[:4] != "PCP_" {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "DEMO_CHILD=1", "PCP_DIR="+root)
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("%v: %s", err, out)
	}
	if _, err := os.Stat(filepath.Join(root, tmp, "mmv", "demo")); err != nil {
		t.Fatal(err)
	}
}
'''
