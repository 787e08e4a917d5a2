export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
