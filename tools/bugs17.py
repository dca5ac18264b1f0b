exec(open('/verif/tools/bugs2.py').read().split("BUGS=[]")[0]+"BUGS=[]")
src=open('/verif/tools/bugs2.py').read()
exec(src[src.index("def bug("):src.index("bug('")])
SER='internal/cascadia/serialize.go'
bug('hex-crlf','C19',[(P,'''			case '\\r':
				i++
				if len(p.s) > i && p.s[i] == '\\n' {
					i++
				}
			case ' ', '\\t', '\\n', '\\f':
''','''			case ' ', '\\t', '\\n', '\\f', '\\r':
''')],'an escape in hex that is followed by CR LF','only the CR belongs to it',
 **match([['.\\61\r\nb','<p class="ab" id="x"></p><p class="a"><b id="y"></b></p>','x']]))
bug('string-crlf','C18',[(P,'''					if len(p.s) > i+2 && p.s[i+2] == '\\n' {
						i += 3
						continue loop
					}
					fallthrough
				case '\\n', '\\f':
''','''					fallthrough
				case '\\n', '\\f':
''')],'a string that is continued after an escaped CR LF','the selector is rejected',
 **match([['[k="a\\\r\nb"]','<p k="ab" id="x"></p>','x']]))
bug('tag-unicode','C19',[(P,'''	return TagSelector{tag: toLowerASCII(tag)}, nil
''','''	return TagSelector{tag: strings.ToLower(tag)}, nil
''')],'a type selector with a capital letter beyond ASCII','it matches elements with the small letter, and not those with the capital one',
 **match([['bÉ','<bÉ id="x"></bÉ><bé id="y"></bé>','x']]))
bug('even-case','C19',[(P,'''		id = toLowerASCII(id)
		if id == "odd" {
			return 2, 1, nil
		}
		if id == "even" {
''','''		if strings.EqualFold(id, "odd") {
			return 2, 1, nil
		}
		if id == "even" || id == "EVEN" {
''')],'even in mixed case','the selector is rejected',
 **match([['p:nth-child(Even)','<p></p><p id="x"></p>','x']]))
bug('flag-not-written','C18',[(SER,'''	if c.insensitive {
''','''	if c.insensitive && c.operation != "|=" {
''')],'[k|=v i] is written out','the flag is missing',
 **match([['p','<p id="x"></p>','x']]))
BUGS[-1].update(round(['[k|="v" i]']))
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('if again.String() != out {','if !strings.Contains(out, " i]") || again.String() != out {'); BUGS[-1]['imports']=['strings']
bug('pseudo-element-case','C15',[(P,'''	name = toLowerASCII(name)
	if mustBePseudoElement && (name''','''	if lower := toLowerASCII(name); !mustBePseudoElement || lower == "before" || lower == "after" {
		name = lower
	}
	if mustBePseudoElement && (name''')],'the name of a pseudo-element other than ::before and ::after in capitals','the rule is lost',
 **cases(['.a::MARKER{color:red}.b::marker{color:blue}',('a b','b')]))
bug('legacy-colon','C15',[(P,'''		return nil, name, nil
	default:
''','''		if !mustBePseudoElement && name == "first-letter" {
			return out, "", fmt.Errorf("unknown pseudoclass :%s", name)
		}
		return nil, name, nil
	default:
''')],':first-letter with a single colon','the rule is lost',
 **cases(['.a:first-letter{color:red}.b::first-letter{color:blue}',('a b','b')]))
bug('star-space','C15',[(P,'''		// It's the universal selector. Just skip over it, since it doesn't affect the meaning.
		p.i++
''','''		// It's the universal selector. Just skip over it, since it doesn't affect the meaning.
		p.i++
		p.skipWhitespace()
''')],'a universal selector before a descendant combinator','* .a is taken as *.a',
 **match([['* b','<i id="i"><b id="x"></b></i>','x'],['div * b','<div><b id="y"></b></div>','']]))
bug('comma-closes','C18',[(P,'''		case ',', ')':
			// These characters can't begin a selector, but they can legally occur after one.
			return result, nil
''','''		case ',', ')', ';':
			// These characters can't begin a selector, but they can legally occur after one.
			return result, nil
''')],'nothing','nothing',**match([['p','<p id="x"></p>','x']]))
BUGS.pop()
bug('adjacent-comments','C15',[(P,'''				if end != -1 {
					i += end + len("/**/")
					continue
				}
''','''				if end != -1 {
					i += end + len("/**/")
					if i < len(p.s) && p.s[i] == '/' {
						break
					}
					continue
				}
''')],'two comments in a row within a selector','the rule is lost',
 **match([['p /*a*//*b*/ > b','<p><b id="x"></b></p>','x']]))
bug('dash-prefix-case','C19',[(CP+'selector.go','''			if matchInsensitiveValue(s[:len(val)], val, ignoreCase) && s[len(val)] == '-' {
				return true
			}
			return false
''','''			return strings.HasPrefix(s, val+"-")
''')],'[k|=v i] with the value in other case, and a hyphen','it does not match',
 **match([['[k|="EN" i]','<p k="en-us" id="x"></p>','x']]))
bug('not-text','C19',[(CP+'pseudo_classes.go','''		return !s.match.Match(n)
''','''		for _, sel := range s.match {
			if len(s.match) > 2 && sel.Match(n) {
				return false
			}
		}
		return len(s.match) > 2 || !s.match[0].Match(n) && !s.match[len(s.match)-1].Match(n)
''')],'nothing','nothing',**match([['p','<p id="x"></p>','x']]))
BUGS.pop()
bug('has-first-only','C19',[(CP+'pseudo_classes.go','''func hasChildMatch(n *html.Node, a Matcher) bool {
	for c := n.FirstChild; c != nil; c = c.NextSibling {
''','''func hasChildMatch(n *html.Node, a Matcher) bool {
	for c := n.FirstChild; c != nil && c.Type != html.CommentNode; c = c.NextSibling {
''')],':haschild and a comment before the child','it does not match',
 **match([['p:haschild(b)','<p id="x"><!-- c --><b></b></p>','x']]))
bug('flag-not-written','C18',[(SER,'''	if c.insensitive {
''','''	if c.insensitive && c.val != "" && (c.val[0] < '0' || c.val[0] > '9') {
''')],'an attribute selector whose value starts with a digit, with the flag i','it is written without the flag',
 **round(['[k="1a" i]']))
BUGS[-1]['demo']=BUGS[-1]['demo'].replace('if again.String() != out {','if !strings.Contains(out, " i]") || again.String() != out {'); BUGS[-1]['imports']=['strings']
bug('adjacent-comments','C15',[(P,'''					i += end + len("/**/")
					continue
				}
			}
		}
		break
''','''					i += end + len("/**/")
					if i == len(p.s) || p.s[i] != '/' {
						continue
					}
				}
			}
		}
		break
''')],'two comments in a row after white space within a selector','the rule is lost',
 **match([['p /*a*//*b*/ > b','<p><b id="x"></b></p>','x']]))
bug('legacy-colon','C15',[(P,'''	if p.s[p.i] == ':' { // we found a pseudo-element
		mustBePseudoElement = true
		p.i++
	}
''','''	if strings.HasPrefix(p.s[p.i:], ":") || strings.HasPrefix(p.s[p.i:], "first-l") { // we found a pseudo-element
		mustBePseudoElement = true
		p.i++
	}
''')],':first-letter or :first-line with a single colon','the rule is lost',
 **cases(['.a:first-letter{color:red}.b::first-letter{color:blue}',('a b','b')]))
