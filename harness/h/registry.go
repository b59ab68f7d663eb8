// Code generated by "engine gen"; DO NOT EDIT.

package h

// Harnesses maps names to harnesses, for native replays.
var Harnesses = map[string]func(){
	"H01Fresh": H01Fresh,
	"H01History": H01History,
	"H01Instances": H01Instances,
	"H01Large": H01Large,
	"H01Many": H01Many,
	"H01Roundtrip": H01Roundtrip,
	"H02Decision": H02Decision,
	"H02Encrypt": H02Encrypt,
	"H02Fresh": H02Fresh,
	"H02Many": H02Many,
	"H02Token": H02Token,
	"H03Refused": H03Refused,
	"H03Same": H03Same,
	"H04Algebra": H04Algebra,
	"H04Instances": H04Instances,
	"H04Long": H04Long,
	"H04Many": H04Many,
	"H04Names": H04Names,
	"H04Self": H04Self,
	"H04Similar": H04Similar,
	"H05Modified": H05Modified,
	"H05Modify": H05Modify,
	"H05Relocated": H05Relocated,
	"H06Confusion": H06Confusion,
	"H06Independent": H06Independent,
	"H06Length": H06Length,
	"H06Roles": H06Roles,
	"H07Anytime": H07Anytime,
	"H07Foreign": H07Foreign,
	"H07Large": H07Large,
	"H07Lifetime": H07Lifetime,
	"H07Modified": H07Modified,
	"H07String": H07String,
	"H08Forged": H08Forged,
	"H08Identity": H08Identity,
	"H08Instances": H08Instances,
	"H08Many": H08Many,
	"H08Name": H08Name,
	"H08Password": H08Password,
	"H08Storage": H08Storage,
	"H09Caller": H09Caller,
	"H09Delete": H09Delete,
	"H09History": H09History,
	"H09Many": H09Many,
	"H09Names": H09Names,
	"H10Chain": H10Chain,
	"H10Deep": H10Deep,
	"H10Duplicates": H10Duplicates,
	"H10History": H10History,
	"H10Identifiers": H10Identifiers,
	"H10Instances": H10Instances,
	"H10Keywords": H10Keywords,
	"H10Labels": H10Labels,
	"H10Long": H10Long,
	"H10Names": H10Names,
	"H10Similar": H10Similar,
	"H11Access": H11Access,
	"H11Fresh": H11Fresh,
	"H12Foreign": H12Foreign,
	"H12Independent": H12Independent,
	"H12Labels": H12Labels,
	"H12Tampered": H12Tampered,
	"H12Unlinkable": H12Unlinkable,
	"H13Beyond": H13Beyond,
	"H13Bound": H13Bound,
	"H13Large": H13Large,
	"H13Sizes": H13Sizes,
	"H13Unwrap": H13Unwrap,
	"H13Wrap": H13Wrap,
	"H14Cryptor": H14Cryptor,
	"H14CryptorTampered": H14CryptorTampered,
	"H14Large": H14Large,
	"H14Lengths": H14Lengths,
	"H14Roundtrip": H14Roundtrip,
	"H14Tampered": H14Tampered,
	"H15KDF": H15KDF,
	"H15Large": H15Large,
	"H15Reference": H15Reference,
	"H15Refused": H15Refused,
	"H15Separate": H15Separate,
	"H15Stream": H15Stream,
	"H15Tagger": H15Tagger,
	"H16Generated": H16Generated,
	"H16Malformed": H16Malformed,
	"H16Reference": H16Reference,
	"H17Failing": H17Failing,
	"H17History": H17History,
	"H17InUse": H17InUse,
	"H17Keys": H17Keys,
	"H17Large": H17Large,
	"H17Many": H17Many,
	"H17Reopen": H17Reopen,
	"H17Separate": H17Separate,
	"H17Stable": H17Stable,
	"H17Types": H17Types,
	"H17Values": H17Values,
	"H18Calls": H18Calls,
	"H18Crypto": H18Crypto,
	"H18Identity": H18Identity,
	"H18Index": H18Index,
	"H18IndexDelete": H18IndexDelete,
	"H18Keys": H18Keys,
	"H18Objects": H18Objects,
	"H18Provider": H18Provider,
	"H18SameObject": H18SameObject,
	"H18Tokens": H18Tokens,
	"H19Encrypt": H19Encrypt,
	"H19Errors": H19Errors,
	"H19Identifiers": H19Identifiers,
	"H19Identity": H19Identity,
	"H19Index": H19Index,
	"H19Object": H19Object,
	"H19Providers": H19Providers,
	"H19Sentinels": H19Sentinels,
	"H20Given": H20Given,
	"H20Identity": H20Identity,
	"H20Index": H20Index,
	"H20Objects": H20Objects,
	"H20Random": H20Random,
	"H21Accepted": H21Accepted,
	"H21Identity": H21Identity,
	"H21Index": H21Index,
	"H21Sizes": H21Sizes,
	"H22Identity": H22Identity,
	"H22Keys": H22Keys,
	"H22Primitives": H22Primitives,
	"H22Requests": H22Requests,
	"H22Sealed": H22Sealed,
	"H22Tokens": H22Tokens,
	"H23Arguments": H23Arguments,
	"H23Objects": H23Objects,
	"H23Others": H23Others,
	"H23Primitives": H23Primitives,
	"H23Tokens": H23Tokens,
	"H24Access": H24Access,
	"H24Identity": H24Identity,
	"H24Scopes": H24Scopes,
	"H24Types": H24Types,
	"H25Caller": H25Caller,
	"H25Concurrent": H25Concurrent,
	"H25Objects": H25Objects,
	"H25Others": H25Others,
	"H26Objects": H26Objects,
	"H26Others": H26Others,
	"H27Identity": H27Identity,
	"H27Index": H27Index,
	"H27Objects": H27Objects,
	"H27Tokens": H27Tokens,
}
