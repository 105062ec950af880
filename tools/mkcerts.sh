#!/bin/bash
# creates the (committed) certificates data/tls/*.pem that check C26 uses; needs the openssl command line tool.
# Only needed to regenerate them: the checks use the committed files.
set -e
out=$(cd "$(dirname "$0")/.." && pwd)/data/tls
t=$(mktemp -d)
cd "$t"
cat > ca.cnf <<E
[ca]
default_ca=d
[d]
dir=$t
database=$t/db
serial=$t/serial
new_certs_dir=$t
default_md=sha256
policy=p
unique_subject=no
copy_extensions=none
[p]
countryName=optional
organizationName=optional
organizationalUnitName=optional
commonName=supplied
[ext_ca]
basicConstraints=critical,CA:true
[ext_leaf]
basicConstraints=CA:false
E
: > db; echo 1000 > serial
# mk NAME SUBJECT EXT ISSUER START END
mk() {
	openssl ecparam -name prime256v1 -genkey -noout -out "$1.key"
	openssl req -new -key "$1.key" -subj "$2" -out "$1.csr"
	if [ "$4" = self ]; then sig=(-selfsign -keyfile "$1.key"); else sig=(-cert "$4.crt" -keyfile "$4.key"); fi
	openssl ca -batch -notext -config ca.cnf -extensions "$3" -in "$1.csr" -out "$1.crt" "${sig[@]}" -startdate "${5:-20000101000000Z}" -enddate "${6:-21990101000000Z}" 2>/dev/null
	cat "$1.key" "$1.crt" > "$1.pem"
}
mk srv /CN=default.test ext_leaf self
mk fallback /CN=fallback.test ext_leaf self
for n in a.test bb.test xn--bcher-kva.test longer-name.sub.test; do mk "sni_$n" "/CN=$n" ext_leaf self; done
mk cca "/CN=client ca" ext_ca self
mk inter "/CN=client intermediate" ext_ca cca
mk good "/C=DE/O=Verif/OU=unit one/CN=good client" ext_leaf cca
mk good2 "/O=Two/CN=second client" ext_leaf cca
mk deep "/CN=deep client" ext_leaf inter
mk expired "/CN=expired client" ext_leaf cca 20000101000000Z 20100101000000Z
mk selfs "/CN=self signed" ext_leaf self
mk oca "/CN=other ca" ext_ca self
mk foreign "/CN=foreign client" ext_leaf oca
mk fakeca "/CN=client ca" ext_ca self
mk forged "/CN=good client" ext_leaf fakeca
cat inter.crt >> deep.pem
cp cca.crt "$out/cca.crt"
cp srv.pem fallback.pem sni_*.pem good.pem good2.pem deep.pem expired.pem selfs.pem foreign.pem forged.pem "$out/"
rm -rf "$t"
