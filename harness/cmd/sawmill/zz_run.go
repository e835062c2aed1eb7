package main

import (
	"io"

	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

func zzRun(in io.Reader, out io.Writer, p *pipeline.Pipeline) error { return processInput(in, out, p) }

func zzLoad(path string) (*pipeline.Config, error) { return loadPipeline(path) }

const zzCanLoad = true
