# Go environment of the checks (offline)
if [ -f /opt/vp/env.sh ]; then
	d="$PWD"; . /opt/vp/env.sh >/dev/null 2>&1; cd "$d"
fi
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local GO111MODULE=on
