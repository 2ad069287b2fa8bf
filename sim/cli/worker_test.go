package cli

import (
	"testing"

	"aaa.verif/sim/drive"
)

func TestWorker(t *testing.T) { drive.Worker(t) }
