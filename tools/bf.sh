. /opt/vp/env.sh; cd /verif/analyzer
export VERIF_DIR=/verif
go build -mod=vendor -o /tmp/mut ./cmd/mut && go build -mod=vendor -o /tmp/an . && /tmp/an freeze && go build -mod=vendor -o /tmp/an . && /tmp/an floors && go build -mod=vendor -o /tmp/an . && ls -la tables
