package main

import "math/rand"

// mutate cuts, repeats, moves or changes bytes of s, with characters of alphabet.
func mutate(r *rand.Rand, s, alphabet string) string {
	b := []byte(s)
	for k := 1 + r.Intn(3); k > 0; k-- {
		i := r.Intn(len(b) + 1)
		j := i + r.Intn(4)
		if r.Intn(6) == 0 {
			j = i + r.Intn(len(b)+1)
		}
		if j > len(b) {
			j = len(b)
		}
		part := append([]byte{}, b[i:j]...)
		switch r.Intn(6) {
		case 0: // cut
			b = append(b[:i:i], b[j:]...)
		case 1: // end here
			b = b[:i:i]
		case 2: // repeat
			b = append(b[:j:j], append(part, b[j:]...)...)
		case 3: // move
			b = append(b[:i:i], b[j:]...)
			l := r.Intn(len(b) + 1)
			b = append(b[:l:l], append(part, b[l:]...)...)
		case 4: // insert
			l := r.Intn(len(alphabet))
			b = append(b[:i:i], append([]byte(alphabet[l:l+1]), b[i:]...)...)
		case 5: // change
			if i < len(b) {
				b[i] = alphabet[r.Intn(len(alphabet))]
			}
		}
	}
	return string(b)
}
