#!/bin/bash
# Makes harness/certs anew: two authorities, and for each a leaf of every kind of key.
set -eu
D=$(cd "$(dirname "$0")/../harness/certs" && pwd)
T=$(mktemp -d)
cd "$T"
cat > ca.cnf <<C
[ca]
default_ca=d
[d]
dir=$T
new_certs_dir=$T
database=$T/index.txt
serial=$T/serial
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
[v3_ca]
basicConstraints=critical,CA:TRUE
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
[inter]
basicConstraints=critical,CA:TRUE,pathlen:0
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
[leaf]
basicConstraints=critical,CA:FALSE
extendedKeyUsage=serverAuth,clientAuth
subjectAltName=DNS:localhost,DNS:broker.test,IP:127.0.0.1,IP:::1
[req]
distinguished_name=dn
[dn]
C
: > index.txt
echo 1000 > serial
S="-batch -notext -config ca.cnf"
make() { # name, subject, signer, extensions, key options, dates
  openssl genpkey $5 -out "$1.key" 2> /dev/null
  openssl req -new -key "$1.key" -subj "/CN=$2" -config ca.cnf -out l.csr
  if [ "$3" = self ]; then
    openssl ca $6 $S -selfsign -keyfile "$1.key" -in l.csr -extensions "$4" -out "$1.pem" 2> /dev/null
  else
    openssl ca $6 $S -cert "$3.pem" -keyfile "$3.key" -in l.csr -extensions "$4" -out "$1.pem" 2> /dev/null
  fi
}
P256="-algorithm EC -pkeyopt ec_paramgen_curve:P-256"
LONG="-startdate 20200101000000Z -enddate 21200101000000Z"
for a in ca other; do
  make $a "vh $a" self v3_ca "$P256" "$LONG"
  make leaf_$a localhost $a leaf "$P256" "$LONG"
  make leaf_${a}_p384 localhost $a leaf "-algorithm EC -pkeyopt ec_paramgen_curve:P-384" "$LONG"
  make leaf_${a}_ed localhost $a leaf "-algorithm ED25519" "$LONG"
  make leaf_${a}_rsa localhost $a leaf "-algorithm RSA -pkeyopt rsa_keygen_bits:2048" "$LONG"
  make leaf_${a}_old localhost $a leaf "$P256" "-startdate 20200101000000Z -enddate 20210101000000Z"
  make inter_$a "vh inter $a" $a inter "$P256" "$LONG"
  make leaf_${a}_chain localhost inter_$a leaf "$P256" "$LONG"
  cat inter_$a.pem >> leaf_${a}_chain.pem
done
cat other.pem ca.pem > both.pem
cp ca.pem ca.key other.pem other.key both.pem leaf_*.pem leaf_*.key "$D"
cd /
rm -r "$T"
