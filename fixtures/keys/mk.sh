set -e
gen() { # name keyargs ext
 n=$1; shift
 case $n in
  rsa*) openssl genrsa -out $n.key 2048 2>/dev/null;;
  dsa*) openssl dsaparam -genkey -out $n.tmp 2048 2>/dev/null; openssl pkey -in $n.tmp -out $n.key; rm $n.tmp;;
  ec*) openssl ecparam -name prime256v1 -genkey -noout -out $n.key;;
 esac
}
crt() { # name key cn extsection issuer
 n=$1; k=$2; cn=$3; ext=$4; iss=$5
 openssl req -new -key $k.key -subj "/CN=$cn" -out $n.csr
 rm -rf ca; mkdir ca; touch ca/index.txt; SER=$((SER+1)); printf "%02d\n" $SER > ca/serial
 cat > ca.cnf <<C
[ca]
default_ca=d
[d]
dir=ca
database=ca/index.txt
new_certs_dir=ca
serial=ca/serial
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
[plain]
[root]
basicConstraints=critical,CA:TRUE
keyUsage=critical,keyCertSign,cRLSign
[codesign]
keyUsage=critical,digitalSignature
extendedKeyUsage=codeSigning
[ca2]
basicConstraints=critical,CA:TRUE
keyUsage=critical,keyCertSign
[email]
keyUsage=digitalSignature
extendedKeyUsage=emailProtection
[nonrep]
keyUsage=nonRepudiation
extendedKeyUsage=codeSigning
[nousage]
extendedKeyUsage=codeSigning
[badusage]
keyUsage=critical,keyEncipherment
extendedKeyUsage=codeSigning
C
 if [ -z "$iss" ]; then openssl ca -batch -selfsign -config ca.cnf -extensions $ext -keyfile $k.key -in $n.csr -out $n.pem -notext -startdate 20200101000000Z -enddate ${END:-20991231235959Z} 2>/dev/null
 else openssl ca -batch -config ca.cnf -extensions $ext -cert $iss.pem -keyfile ${ISSKEY:-$iss}.key -in $n.csr -out $n.pem -notext -startdate 20200101000000Z -enddate ${END:-20991231235959Z} 2>/dev/null; fi
 rm -rf ca ca.cnf $n.csr
}
SER=0
for n in rsa1 rsa2 dsa1 ec1 ec2; do gen $n; crt $n $n "Signer $n" plain; done
gen rsaroot; crt rsaroot rsaroot Root root
crt rsaleaf rsa1 "Leaf rsa" codesign rsaroot
crt ecleaf ec1 "Leaf ec" nonrep rsaroot
for e in codesign email nonrep nousage badusage; do crt rsa1-$e rsa1 "rsa $e" $e; done
crt leaf-badusage rsa1 "leaf bad" badusage rsaroot
crt leaf-nousage rsa1 "leaf nousage" nousage rsaroot
gen rsa3; crt rsa3 rsa3 "Signer rsa3" plain
crt rsaint rsa2 "Intermediate" ca2 rsaroot
ISSKEY=rsa2 crt intleaf rsa1 "Leaf of the intermediate" codesign rsaint
crt rsafake rsa3 "A leaf of the root" codesign rsaroot
ISSKEY=rsa3 crt fakeleaf rsa1 "Leaf of a leaf" codesign rsafake
END=20210101000000Z crt rsa1-expired rsa1 "rsa expired" codesign
END=20210101000000Z crt leaf-expired rsa1 "leaf expired" codesign rsaroot
