BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


F = 'hgaa/attcert.py'
PRE = '''
from hgaa.attcert import *
from Crypto.PublicKey import RSA
K = RSA.generate(1024)
D = K.publickey().exportKey('DER')


def cert(value='v', exts=None, dele=None, serial=7, atts=None, **rev):
    rev = dict(dict(valid_after=1000, valid_before=2000), **rev)
    return AttributeCertificate(ACIssuer(D, 'RSA', 'urn:aa', 'n', 'http://aa'), ACHolder(D, 'RSA', 'urn:u', 'u'), ACInformation(0, serial, 1000),
                                atts or [ACAttribute('urn:a', AttributeType.STRING, value, 'a')], ACRevocationRules(**rev), dele, exts)
'''

bug('B1201', 'P12', [(F, "serial_bytes = self.serial.to_bytes(int(ACInformation.SERIAL_SIZE / 8), 'little')", "serial_bytes = self.serial.to_bytes(int(ACInformation.SERIAL_SIZE / 8), 'big')"),
                     (F, "info.serial = int.from_bytes(byte_array[2:2 + serial_size], 'little')", "info.serial = int.from_bytes(byte_array[2:2 + serial_size], 'big')")],
    'a certificate written by another version or implementation', 'the layout of the serial changed on both sides', PRE + '''
b = bytes(ACInformation(0, 1, 2).encode())
assert b[2:4] == b'\\x01\\x00', b
''')
bug('B1202', 'P12', [(F, "attribute.att_value = att_value.decode('utf-8') if att_value != b'' else None", "attribute.att_value = att_value.decode('utf-8').rstrip('\\x00') if att_value != b'' else None")],
    'an attribute value that ends in a NUL character', 'the value is altered by export and import', PRE + '''
c = AttributeCertificate.import_ac(cert('a\\x00').export_ac())
assert c.att_set[0].att_value == 'a\\x00'
''')
bug('B1301', 'P13', [(F, "        pub_key = RSA.import_key(self.issuer.pub_key)\n\n        encoded = self._encode_body()\n        sig_hash = SHA256.new(encoded)\n        try:\n            pkcs1_15.new(pub_key).verify(sig_hash, self.signature.sig_value)\n            return True",
                      "        pub_key = RSA.import_key(self.issuer.pub_key)\n        if getattr(self.signature, 'verified', None) == (self.issuer.pub_key, self.info.serial):\n            return True\n\n        encoded = self._encode_body()\n        sig_hash = SHA256.new(encoded)\n        try:\n            pkcs1_15.new(pub_key).verify(sig_hash, self.signature.sig_value)\n            self.signature.verified = (self.issuer.pub_key, self.info.serial)\n            return True")],
    'a certificate verified once and changed afterwards', 'the changed certificate still verifies', PRE + '''
c = cert()
c.sign(K)
assert c.verify_signature()
c.att_set[0].att_value = 'w'
assert not c.verify_signature()
''')
bug('B1302', 'P13', [(F, "        encoded = self._encode_body()\n        hash = SHA256.new(encoded)", "        encoded = self._encode_body()[:0xffff]\n        hash = SHA256.new(encoded)"),
                     (F, "        encoded = self._encode_body()\n        sig_hash = SHA256.new(encoded)", "        encoded = self._encode_body()[:0xffff]\n        sig_hash = SHA256.new(encoded)")],
    'a certificate of more than 65535 bytes changed beyond that point', 'the tail of a large certificate is not signed', PRE + '''
c = cert(atts=[ACAttribute('urn:a%d' % i, AttributeType.STRING, 'v' * 30000, 'a%d' % i) for i in range(3)])
c.sign(K)
assert c.verify_signature()
c.att_set[2].att_name = 'b2'
assert not c.verify_signature()
''')
bug('B1303', 'P13', [(F, "        if verify and not ac.verify_signature():", "        if verify and ac.signature is not None and not ac.verify_signature():")],
    'importing an unsigned certificate with verification', 'a certificate without signature is imported as verified', PRE + '''
try:
    AttributeCertificate.import_ac(cert().export_ac(), verify=True)
except Exception:
    sys.exit(0)
sys.exit('imported')
''')
bug('B1401', 'P14', [(F, "        if len(byte_array) > 0:\n            # TODO: Custom exception.\n            raise Exception('Extra", "        if any(byte_array):  # ignore padding\n            # TODO: Custom exception.\n            raise Exception('Extra")],
    'zero bytes after a certificate', 'data that is not exactly one certificate is accepted', PRE + '''
try:
    AttributeCertificate.import_ac(cert().export_ac() + b'\\0\\0')
except Exception:
    sys.exit(0)
sys.exit('imported')
''')
bug('B1402', 'P14', [(F, "attribute.att_name = att_name.decode('utf-8') if att_name != b'' else None", "attribute.att_name = att_name.decode('utf-8', 'replace') if att_name != b'' else None")],
    'an attribute name that is not UTF-8', 'invalid text is read as something else', PRE + '''
c = cert(atts=[ACAttribute('urn:a', AttributeType.STRING, 'v', 'QQQ')])
b = bytes(c.export_ac()).replace(b'QQQ', b'Q\\xffQ')
try:
    AttributeCertificate.import_ac(b)
except Exception:
    sys.exit(0)
sys.exit('imported')
''')
bug('B1501', 'P15', [(F, "        if now is None:\n            now = int(time.time())\n        return", "        now = now or int(time.time())\n        return")],
    'asking about time zero', 'the present is used instead', PRE + '''
import time
c = cert(valid_after=0, valid_before=2 ** 32 - 1)
assert not c.verify_time(0)
''')
bug('B1502', 'P15', [(F, "            self.valid_before = int(time.time()) + ACRevocationRules.DEFAULT_LENGTH", "            self.valid_before = self.valid_after + ACRevocationRules.DEFAULT_LENGTH")],
    'a start of validity given without an end', 'the end is not one day from creation', PRE + '''
import time
r = ACRevocationRules(valid_after=5)
assert abs(r.valid_before - time.time() - 86400) < 60, r.valid_before
''')
bug('B1601', 'P16', [(F, "                if (self.del_rules is None and other.del_rules.extra_bytes is None) or \\\n                   (other.del_rules is None and self.del_rules.extra_bytes is None):", "                if self.del_rules is None or other.del_rules is None:")],
    'delegation rules present in one certificate only', 'certificates with and without delegation rules are equal', PRE + '''
assert cert() != cert(dele=ACDelegationRules(b'x'))
''')
bug('B1602', 'P16', [(F, "        return isinstance(other, ACPart) and self.sig_value == other.sig_value and self.sig_algo == other.sig_algo", "        return isinstance(other, ACPart) and self.sig_algo == other.sig_algo and \\\n            len(self.sig_value) == len(other.sig_value) and self.sig_value[:20] == other.sig_value[:20]")],
    'signatures that differ after the first bytes', 'certificates with different signatures are equal', PRE + '''
a, b = cert(), cert()
a.signature = ACSignature('x', b'a' * 64)
b.signature = ACSignature('x', b'a' * 63 + b'b')
assert a != b
''')
bug('B1701', 'P17', [(F, "        if self.serial is not None:\n            output += 'SERIAL: %d\\n' % self.serial", "        if self.serial:\n            output += 'SERIAL: %d\\n' % self.serial")],
    'serial zero', 'the serial is missing in the text', PRE + '''
assert 'SERIAL: 0\\n' in cert(serial=0).export_ac(ExportFormat.TEXT)
''')
bug('B1702', 'P17', [(F, "        output += 'SIGNATURE VALUE: %s\\n' % base64.b64encode(self.sig_value).decode('utf-8')", "        output += 'SIGNATURE VALUE: %s\\n' % base64.b64encode(self.sig_value).decode('utf-8')[:344]")],
    'a signature of more than 258 bytes', 'the signature is cut in the text', PRE + '''
a = cert()
a.signature = ACSignature('x', b'a' * 512)
assert base64.b64encode(b'a' * 512).decode() in a.export_ac(ExportFormat.TEXT)
''')
bug('B1206', 'P12', [(F, "bytes(byte_array[size:size + extra_byte_size])", "bytes(byte_array[size:size + min(extra_byte_size, 1024)])")],
    'an attribute with more than a kilobyte of extension bytes', 'they are cut on import', PRE + '''
a = ACAttribute('urn:a', AttributeType.STRING, 'v', 'a', b'x' * 1500)
assert AttributeCertificate.import_ac(cert(atts=[a]).export_ac()).att_set[0].extra_bytes == b'x' * 1500
''')
bug('B1306', 'P13', [(F, "verify(sig_hash, self.signature.sig_value)", "verify(sig_hash, self.signature.sig_value[:pub_key.size_in_bytes()])")],
    'a signature with bytes added to its end', 'it still verifies', PRE + '''
c = cert()
c.sign(K)
c.signature = ACSignature(c.signature.sig_algo, bytes(c.signature.sig_value) + b'x')
assert not c.verify_signature()
''')
bug('B1605', 'P16', [(F, "self.att_type == other.att_type and self.att_value == other.att_value and", "self.att_type == other.att_type and str(self.att_value) == str(other.att_value) and")],
    'an attribute without a value and one with the value None in letters', 'the two are equal', PRE + '''
assert cert('') != cert('None')
''')
