id="p18-unflushed"; prop="P18"
needs="an output that fails only when the last buffered piece of the text is delivered"
breaks="The text goes through a buffer whose last flush is not checked, so the end of the text can get lost without an error."
edits=[("mmvdump/writer.go","""import (
	"fmt"
""","""import (
	"bufio"
	"fmt"
"""),("mmvdump/writer.go","""	if _, err := fmt.Fprintf(w, `Version   = %v
""","""	out := bufio.NewWriterSize(w, 256)
	defer out.Flush()

	if _, err := fmt.Fprintf(out, `Version   = %v
"""),("mmvdump/writer.go","""	return writeComponents(w, header, tocs, metrics, values, instances, indoms, strings)
""","""	return writeComponents(out, header, tocs, metrics, values, instances, indoms, strings)
""")]
pkg="mmvdump"
demo=open("/verif/tools/specs/p18a.py").read().split("demo='''")[1].split("'''")[0]
