package verifh

import "os"

// nodeMain runs a part of the code under test in a process of its own.
func nodeMain() {
	switch os.Getenv("VH_NODE") {
	case "fswriter":
		fsWriterNode()
	case "setup":
		setupNode()
	case "submit":
		submitNode()
	}
}
