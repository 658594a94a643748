//go:build !nocommands

package main

import command "github.com/performancecopilot/speed/v4/mmvdump/cmd/mmvdump"

func init() { commandMain = command.Main }
