package main

// Names that share the 32 bit FNV-1 hash of another name: the library keeps
// fields by that hash.

const fnvBasis, fnvPrime = uint32(2166136261), uint32(16777619)

var (
	collideHeads map[uint32][3]byte
	collideKnown = map[string]string{}
)

// collide returns another name with the hash of name.
func collide(name string) string {
	if s, ok := collideKnown[name]; ok {
		return s
	}
	if collideHeads == nil {
		collideHeads = make(map[uint32][3]byte, 53*63*63)
		for _, a := range []byte(nameChars[:52]) {
			for _, b := range []byte(nameChars) {
				for _, c := range []byte(nameChars) {
					collideHeads[fnv1(fnvBasis, string([]byte{a, b, c}))] = [3]byte{a, b, c}
				}
			}
		}
	}
	inv := uint32(1)
	for i := 0; i < 5; i++ {
		inv *= 2 - fnvPrime*inv
	}
	target := fnv1(fnvBasis, name)
	found := ""
	for _, c := range []byte(nameChars) {
		h1 := (target ^ uint32(c)) * inv
		for _, b := range []byte(nameChars) {
			h2 := (h1 ^ uint32(b)) * inv
			for _, a := range []byte(nameChars) {
				if head, ok := collideHeads[(h2^uint32(a))*inv]; ok {
					if s := string(head[:]) + string([]byte{a, b, c}); s != name && fnv1(fnvBasis, s) == target && (found == "" || s < found) {
						found = s
					}
				}
			}
		}
	}
	if found == "" {
		found = name + "Nope"
	}
	collideKnown[name] = found
	return found
}

func fnv1(h uint32, s string) uint32 {
	for i := 0; i < len(s); i++ {
		h = h*fnvPrime ^ uint32(s[i])
	}
	return h
}
