module midiverif

go 1.23

require github.com/transcriptaze/midiasm v0.0.0

replace github.com/transcriptaze/midiasm => /repo
