// Every way of editing a string, with its effect on the text.
#pragma once
struct StrArgs {
    const char* zt; Bytes zb;		// terminated text
    const char* ut; Bytes ub;		// text that ends where its memory does
    const wchar_t* wt; size_t wn; Bytes wb; Bytes w1;	// terminated wide text, and the encoding of its first character
    const ustl::string* o; const Bytes* ob;		// another string
    size_t at, k, of, ol, n;		// a range of the string, a range of the other, a count
    char ch;
    bool ro;				// the string refers to memory it may not change
};
enum { N_STREDITS = 60 };
// what is done to s is done by e; the text becomes want and the returned position is *rp, or npos where none is returned
template <typename Do>
static bool string_edit(int form, ustl::string& s, const StrArgs& x, Bytes& want, size_t& gotp, size_t& wantp, Do run)
{
    using ustl::string;
    typedef string::pos_type pos; typedef string::size_type sz;
    const size_t NO = ~(size_t)0; gotp = wantp = NO;
    auto rng = [&](size_t at, size_t k, const Bytes& t, size_t n) { Bytes r; r.append(want.data(),at); for (size_t q = 0; q < n; ++q) r.append(t.data(),t.size()); r.append(want.data()+at+k,want.size()-at-k); want.swap(r); };
    Bytes part; if (x.ob) part.append(x.ob->data()+x.of,x.ol);
    Bytes one; one.push((uint8_t)x.ch);
    const char c2 = char(x.ch^3), c3 = 'z'; Bytes three; three.push((uint8_t)x.ch); three.push((uint8_t)c2); three.push((uint8_t)c3);
    const size_t at = x.at, k = x.k, n = x.n; const string* o = x.o;
    const bool needo = form == 0 || form == 1 || form == 12 || form == 16 || form == 17 || form == 21 || form == 25 || form == 26 || form == 33 || form == 43 || form == 46 || form == 48 || form == 55 || form == 57;
    if (needo && (!o || o == &s)) return false;
#define RUN(...) run([&]{ __VA_ARGS__; })
    switch (form) {
	case 0: RUN(s.insert(pos(at),*o)); rng(at,0,*x.ob,1); break;
	case 1: RUN(s.insert(pos(at),*o,x.of,x.ol)); rng(at,0,part,1); break;
	case 2: RUN(s.insert(pos(at),x.zt)); rng(at,0,x.zb,1); break;
	case 3: RUN(s.insert(int(at),sz(n),x.ch)); rng(at,0,one,n); break;
	case 4: RUN(s.insert(int(at),x.ut,sz(x.ub.size()))); rng(at,0,x.ub,1); break;
	case 5: RUN(gotp = s.insert(s.iat(at),x.ch) - s.begin()); wantp = at; rng(at,0,one,1); break;
	case 6: RUN(gotp = s.insert(string::const_iterator(s.iat(at)),x.zt,sz(n)) - s.begin()); wantp = at; rng(at,0,x.zb,n); break;
	case 7: RUN(s.insert(pos(at),x.wt,x.wt+x.wn,sz(n))); rng(at,0,x.wb,n); break;
	case 8: RUN(s.push_back(x.wt[0])); rng(want.size(),0,x.w1,1); break;
	case 9: RUN(s += x.wt[0]); rng(want.size(),0,x.w1,1); break;
	case 10: RUN(s += (unsigned char)x.ch); rng(want.size(),0,one,1); break;
	case 11: RUN(s += x.wt); rng(want.size(),0,x.wb,1); break;
	case 12: RUN(s.append(*o,x.of,x.ol)); rng(want.size(),0,part,1); break;
	case 13: RUN(s.append(sz(n),x.wt[0])); rng(want.size(),0,x.w1,n); break;
	case 14: RUN(s.append(x.zt)); rng(want.size(),0,x.zb,1); break;
	case 15: RUN(s.append(x.ut,x.ut+x.ub.size())); rng(want.size(),0,x.ub,1); break;
	case 16: RUN(s.assign(*o)); want = *x.ob; break;
	case 17: RUN(s.assign(*o,x.of,x.ol)); want = part; break;
	case 18: RUN(s.assign(x.zt)); want = x.zb; break;
	case 19: RUN(s.assign(x.wt)); want = x.wb; break;
	case 20: RUN(s = x.ch); want = one; break;
	case 21: if (!k && !x.ob->size()) return false; RUN(s.replace(s.iat(at),s.iat(at+k),*o)); rng(at,k,*x.ob,1); break;
	case 22: RUN(s.replace(s.iat(at),s.iat(at+k),x.zt)); rng(at,k,x.zb,1); break;
	case 23: RUN(s.replace(s.iat(at),s.iat(at+k),x.ut,sz(x.ub.size()))); rng(at,k,x.ub,1); break;
	case 24: if (!n && !k) return false; RUN(s.replace(s.iat(at),s.iat(at+k),sz(n),x.ch)); rng(at,k,one,n); break;
	case 25: RUN(s.replace(pos(at),sz(k),*o)); rng(at,k,*x.ob,1); break;
	case 26: RUN(s.replace(pos(at),sz(k),*o,x.of,x.ol)); rng(at,k,part,1); break;
	case 27: RUN(s.replace(pos(at),sz(k),x.zt)); rng(at,k,x.zb,1); break;
	case 28: if (!n && !k) return false; RUN(s.replace(pos(at),sz(k),sz(n),x.ch)); rng(at,k,one,n); break;
	case 29: if (!k) return false; RUN(s.erase(int(at),sz(k))); rng(at,k,one,0); break;
	case 30: if (at == want.size()) return false; RUN(s.erase(pos(at))); rng(at,want.size()-at,one,0); break;
	case 31: if (!k) return false; RUN(gotp = s.erase(s.iat(at)) - s.begin()); wantp = at; rng(at,1,one,0); break;
	case 32: if (!k) return false; RUN(gotp = s.eraser(at,at+k) - s.begin()); wantp = at; rng(at,k,one,0); break;
	case 33: RUN(s.append(o->begin(),o->end())); rng(want.size(),0,*x.ob,1); break;
	case 34: if (x.ro || !k) return false; if (at & 1) RUN(s.at(at) = x.ch); else RUN(s[at] = x.ch); rng(at,1,one,1); break;
	case 35: if (x.ro || !want.size()) return false; if (at & 1) { RUN(s.front() = x.ch); rng(0,1,one,1); } else { RUN(s.back() = x.ch); rng(want.size()-1,1,one,1); } break;
	case 36: RUN(string t { x.ch, c2, c3 }; s.swap(t)); want = three; break;
	case 37: if (at & 1) RUN((s = { x.ch, c2, c3 })); else RUN(s.assign({ x.ch, c2, c3 })); want = three; break;
	case 38: RUN(s.append({ x.ch, c2, c3 })); rng(want.size(),0,three,1); break;
	case 39: RUN((s += { x.ch, c2, c3 })); rng(want.size(),0,three,1); break;
	case 40: RUN(gotp = s.insert(string::const_iterator(s.iat(at)),{ x.ch, c2, c3 }) - s.begin()); wantp = at; rng(at,0,three,1); break;
	case 41: RUN(s.replace(s.iat(at),s.iat(at+k),{ x.ch, c2, c3 })); rng(at,k,three,1); break;
	case 42: RUN(string t (x.zt + s); s.swap(t)); rng(0,0,x.zb,1); break;
	case 43: RUN(string t (s + *o); s.swap(t)); rng(want.size(),0,*x.ob,1); break;
	case 44: RUN(string t (s); string u (ustl::move(t)); s.swap(u)); break;
	case 45: RUN(string t (n+1,x.ch); s.assign(ustl::move(t))); rng(0,want.size(),one,n+1); break;
	case 46: RUN(string t (*o,x.of,x.ol); s.swap(t)); want = part; break;
	case 47: RUN(string t (x.ut,x.ut+x.ub.size()); s.swap(t)); want = x.ub; break;
	case 48: RUN(s += *o); rng(want.size(),0,*x.ob,1); break;
	case 49: RUN(s += x.zt); rng(want.size(),0,x.zb,1); break;
	case 50: RUN(s.insert(pos(at),sz(n),x.wt[0])); rng(at,0,x.w1,n); break;
	case 51: RUN(gotp = s.insert(string::const_iterator(s.iat(at)),x.ut,x.ut+x.ub.size(),sz(n)) - s.begin()); wantp = at; rng(at,0,x.ub,n); break;
	case 52: if (!k && (!n || !x.ub.size())) return false; RUN(s.replace(s.iat(at),s.iat(at+k),x.ut,x.ut+x.ub.size(),sz(n))); rng(at,k,x.ub,n); break;
	case 53: RUN(string t (ustl::to_string(int(at)-int(k)*3)); s.swap(t)); { char b [32]; int m = 0, v = int(at)-int(k)*3; unsigned u = v < 0 ? 0u-v : v; char* e = b+32; do { *--e = char('0'+u%10); ++m; } while (u /= 10); if (v < 0) { *--e = '-'; ++m; } want.clear(); want.append((const uint8_t*)e,m); } break;
	case 54: RUN(s.append(x.wt,x.wt+x.wn)); rng(want.size(),0,x.wb,1); break;
	case 55: RUN(s.append(*o)); rng(want.size(),0,*x.ob,1); break;
	case 56: if (!k) return false; RUN(gotp = s.erase(string::const_iterator(s.iat(at)),string::const_iterator(s.iat(at+k))) - s.begin()); wantp = at; rng(at,k,one,0); break;
	case 57: RUN(s = *o); want = *x.ob; break;
	case 58: RUN(s.assign(x.wt,x.wt+x.wn)); want = x.wb; break;
	case 59: RUN(s.push_back(x.ch)); rng(want.size(),0,one,1); break;
	default: return false;
    }
#undef RUN
    return true;
}
