cd /verif/gocv && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local go build -o /tmp/gocv . 
