package mcore

// tailwindCSS is the output of Tailwind that the repository has among its tests (MIT licence), tailwindMore is written in its manner.
const tailwindCSS = "/*\n" +
	"! tailwindcss v3.4.1 | MIT License | https://tailwindcss.com\n" +
	"*/\n" +
	"\n" +
	"/*\n" +
	"1. Prevent padding and border from affecting element width. (https://github.com/mozdevs/cssremedy/issues/4)\n" +
	"2. Allow adding a border to an element by just adding a border-width. (https://github.com/tailwindcss/tailwindcss/pull/116)\n" +
	"*/\n" +
	"\n" +
	"*,\n" +
	"::before,\n" +
	"::after {\n" +
	"  box-sizing: border-box;\n" +
	"  /* 1 */\n" +
	"  border-width: 0;\n" +
	"  /* 2 */\n" +
	"  border-style: solid;\n" +
	"  /* 2 */\n" +
	"  border-color: #e5e7eb;\n" +
	"  /* 2 */\n" +
	"}\n" +
	"\n" +
	"::before,\n" +
	"::after {\n" +
	"  --tw-content: '';\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Use a consistent sensible line-height in all browsers.\n" +
	"2. Prevent adjustments of font size after orientation changes in iOS.\n" +
	"3. Use a more readable tab size.\n" +
	"4. Use the user's configured `sans` font-family by default.\n" +
	"5. Use the user's configured `sans` font-feature-settings by default.\n" +
	"6. Use the user's configured `sans` font-variation-settings by default.\n" +
	"7. Disable tap highlights on iOS\n" +
	"*/\n" +
	"\n" +
	"html,\n" +
	":host {\n" +
	"  line-height: 1.5;\n" +
	"  /* 1 */\n" +
	"  -webkit-text-size-adjust: 100%;\n" +
	"  /* 2 */\n" +
	"  -moz-tab-size: 4;\n" +
	"  /* 3 */\n" +
	"  -o-tab-size: 4;\n" +
	"     tab-size: 4;\n" +
	"  /* 3 */\n" +
	"  font-family: ui-sans-serif, system-ui, sans-serif, \"Apple Color Emoji\", \"Segoe UI Emoji\", \"Segoe UI Symbol\", \"Noto Color Emoji\";\n" +
	"  /* 4 */\n" +
	"  font-feature-settings: normal;\n" +
	"  /* 5 */\n" +
	"  font-variation-settings: normal;\n" +
	"  /* 6 */\n" +
	"  -webkit-tap-highlight-color: transparent;\n" +
	"  /* 7 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Remove the margin in all browsers.\n" +
	"2. Inherit line-height from `html` so users can set them as a class directly on the `html` element.\n" +
	"*/\n" +
	"\n" +
	"body {\n" +
	"  margin: 0;\n" +
	"  /* 1 */\n" +
	"  line-height: inherit;\n" +
	"  /* 2 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Add the correct height in Firefox.\n" +
	"2. Correct the inheritance of border color in Firefox. (https://bugzilla.mozilla.org/show_bug.cgi?id=190655)\n" +
	"3. Ensure horizontal rules are visible by default.\n" +
	"*/\n" +
	"\n" +
	"hr {\n" +
	"  height: 0;\n" +
	"  /* 1 */\n" +
	"  color: inherit;\n" +
	"  /* 2 */\n" +
	"  border-top-width: 1px;\n" +
	"  /* 3 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Add the correct text decoration in Chrome, Edge, and Safari.\n" +
	"*/\n" +
	"\n" +
	"abbr:where([title]) {\n" +
	"  -webkit-text-decoration: underline dotted;\n" +
	"          text-decoration: underline dotted;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Remove the default font size and weight for headings.\n" +
	"*/\n" +
	"\n" +
	"h1,\n" +
	"h2,\n" +
	"h3,\n" +
	"h4,\n" +
	"h5,\n" +
	"h6 {\n" +
	"  font-size: inherit;\n" +
	"  font-weight: inherit;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Reset links to optimize for opt-in styling instead of opt-out.\n" +
	"*/\n" +
	"\n" +
	"a {\n" +
	"  color: inherit;\n" +
	"  text-decoration: inherit;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Add the correct font weight in Edge and Safari.\n" +
	"*/\n" +
	"\n" +
	"b,\n" +
	"strong {\n" +
	"  font-weight: bolder;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Use the user's configured `mono` font-family by default.\n" +
	"2. Use the user's configured `mono` font-feature-settings by default.\n" +
	"3. Use the user's configured `mono` font-variation-settings by default.\n" +
	"4. Correct the odd `em` font sizing in all browsers.\n" +
	"*/\n" +
	"\n" +
	"code,\n" +
	"kbd,\n" +
	"samp,\n" +
	"pre {\n" +
	"  font-family: ui-monospace, SFMono-Regular, Menlo, Monaco, Consolas, \"Liberation Mono\", \"Courier New\", monospace;\n" +
	"  /* 1 */\n" +
	"  font-feature-settings: normal;\n" +
	"  /* 2 */\n" +
	"  font-variation-settings: normal;\n" +
	"  /* 3 */\n" +
	"  font-size: 1em;\n" +
	"  /* 4 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Add the correct font size in all browsers.\n" +
	"*/\n" +
	"\n" +
	"small {\n" +
	"  font-size: 80%;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Prevent `sub` and `sup` elements from affecting the line height in all browsers.\n" +
	"*/\n" +
	"\n" +
	"sub,\n" +
	"sup {\n" +
	"  font-size: 75%;\n" +
	"  line-height: 0;\n" +
	"  position: relative;\n" +
	"  vertical-align: baseline;\n" +
	"}\n" +
	"\n" +
	"sub {\n" +
	"  bottom: -0.25em;\n" +
	"}\n" +
	"\n" +
	"sup {\n" +
	"  top: -0.5em;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Remove text indentation from table contents in Chrome and Safari. (https://bugs.chromium.org/p/chromium/issues/detail?id=999088, https://bugs.webkit.org/show_bug.cgi?id=201297)\n" +
	"2. Correct table border color inheritance in all Chrome and Safari. (https://bugs.chromium.org/p/chromium/issues/detail?id=935729, https://bugs.webkit.org/show_bug.cgi?id=195016)\n" +
	"3. Remove gaps between table borders by default.\n" +
	"*/\n" +
	"\n" +
	"table {\n" +
	"  text-indent: 0;\n" +
	"  /* 1 */\n" +
	"  border-color: inherit;\n" +
	"  /* 2 */\n" +
	"  border-collapse: collapse;\n" +
	"  /* 3 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Change the font styles in all browsers.\n" +
	"2. Remove the margin in Firefox and Safari.\n" +
	"3. Remove default padding in all browsers.\n" +
	"*/\n" +
	"\n" +
	"button,\n" +
	"input,\n" +
	"optgroup,\n" +
	"select,\n" +
	"textarea {\n" +
	"  font-family: inherit;\n" +
	"  /* 1 */\n" +
	"  font-feature-settings: inherit;\n" +
	"  /* 1 */\n" +
	"  font-variation-settings: inherit;\n" +
	"  /* 1 */\n" +
	"  font-size: 100%;\n" +
	"  /* 1 */\n" +
	"  font-weight: inherit;\n" +
	"  /* 1 */\n" +
	"  line-height: inherit;\n" +
	"  /* 1 */\n" +
	"  color: inherit;\n" +
	"  /* 1 */\n" +
	"  margin: 0;\n" +
	"  /* 2 */\n" +
	"  padding: 0;\n" +
	"  /* 3 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Remove the inheritance of text transform in Edge and Firefox.\n" +
	"*/\n" +
	"\n" +
	"button,\n" +
	"select {\n" +
	"  text-transform: none;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Correct the inability to style clickable types in iOS and Safari.\n" +
	"2. Remove default button styles.\n" +
	"*/\n" +
	"\n" +
	"button,\n" +
	"[type='button'],\n" +
	"[type='reset'],\n" +
	"[type='submit'] {\n" +
	"  -webkit-appearance: button;\n" +
	"  /* 1 */\n" +
	"  background-color: transparent;\n" +
	"  /* 2 */\n" +
	"  background-image: none;\n" +
	"  /* 2 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Use the modern Firefox focus style for all focusable elements.\n" +
	"*/\n" +
	"\n" +
	":-moz-focusring {\n" +
	"  outline: auto;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Remove the additional `:invalid` styles in Firefox. (https://github.com/mozilla/gecko-dev/blob/2f9eacd9d3d995c937b4251a5557d95d494c9be1/layout/style/res/forms.css#L728-L737)\n" +
	"*/\n" +
	"\n" +
	":-moz-ui-invalid {\n" +
	"  box-shadow: none;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Add the correct vertical alignment in Chrome and Firefox.\n" +
	"*/\n" +
	"\n" +
	"progress {\n" +
	"  vertical-align: baseline;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Correct the cursor style of increment and decrement buttons in Safari.\n" +
	"*/\n" +
	"\n" +
	"::-webkit-inner-spin-button,\n" +
	"::-webkit-outer-spin-button {\n" +
	"  height: auto;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Correct the odd appearance in Chrome and Safari.\n" +
	"2. Correct the outline style in Safari.\n" +
	"*/\n" +
	"\n" +
	"[type='search'] {\n" +
	"  -webkit-appearance: textfield;\n" +
	"  /* 1 */\n" +
	"  outline-offset: -2px;\n" +
	"  /* 2 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Remove the inner padding in Chrome and Safari on macOS.\n" +
	"*/\n" +
	"\n" +
	"::-webkit-search-decoration {\n" +
	"  -webkit-appearance: none;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Correct the inability to style clickable types in iOS and Safari.\n" +
	"2. Change font properties to `inherit` in Safari.\n" +
	"*/\n" +
	"\n" +
	"::-webkit-file-upload-button {\n" +
	"  -webkit-appearance: button;\n" +
	"  /* 1 */\n" +
	"  font: inherit;\n" +
	"  /* 2 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Add the correct display in Chrome and Safari.\n" +
	"*/\n" +
	"\n" +
	"summary {\n" +
	"  display: list-item;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Removes the default spacing and border for appropriate elements.\n" +
	"*/\n" +
	"\n" +
	"blockquote,\n" +
	"dl,\n" +
	"dd,\n" +
	"h1,\n" +
	"h2,\n" +
	"h3,\n" +
	"h4,\n" +
	"h5,\n" +
	"h6,\n" +
	"hr,\n" +
	"figure,\n" +
	"p,\n" +
	"pre {\n" +
	"  margin: 0;\n" +
	"}\n" +
	"\n" +
	"fieldset {\n" +
	"  margin: 0;\n" +
	"  padding: 0;\n" +
	"}\n" +
	"\n" +
	"legend {\n" +
	"  padding: 0;\n" +
	"}\n" +
	"\n" +
	"ol,\n" +
	"ul,\n" +
	"menu {\n" +
	"  list-style: none;\n" +
	"  margin: 0;\n" +
	"  padding: 0;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Reset default styling for dialogs.\n" +
	"*/\n" +
	"\n" +
	"dialog {\n" +
	"  padding: 0;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Prevent resizing textareas horizontally by default.\n" +
	"*/\n" +
	"\n" +
	"textarea {\n" +
	"  resize: vertical;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Reset the default placeholder opacity in Firefox. (https://github.com/tailwindlabs/tailwindcss/issues/3300)\n" +
	"2. Set the default placeholder color to the user's configured gray 400 color.\n" +
	"*/\n" +
	"\n" +
	"input::-moz-placeholder, textarea::-moz-placeholder {\n" +
	"  opacity: 1;\n" +
	"  /* 1 */\n" +
	"  color: #9ca3af;\n" +
	"  /* 2 */\n" +
	"}\n" +
	"\n" +
	"input::placeholder,\n" +
	"textarea::placeholder {\n" +
	"  opacity: 1;\n" +
	"  /* 1 */\n" +
	"  color: #9ca3af;\n" +
	"  /* 2 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Set the default cursor for buttons.\n" +
	"*/\n" +
	"\n" +
	"button,\n" +
	"[role=\"button\"] {\n" +
	"  cursor: pointer;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Make sure disabled buttons don't get the pointer cursor.\n" +
	"*/\n" +
	"\n" +
	":disabled {\n" +
	"  cursor: default;\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"1. Make replaced elements `display: block` by default. (https://github.com/mozdevs/cssremedy/issues/14)\n" +
	"2. Add `vertical-align: middle` to align replaced elements more sensibly by default. (https://github.com/jensimmons/cssremedy/issues/14#issuecomment-634934210)\n" +
	"   This can trigger a poorly considered lint error in some tools but is included by design.\n" +
	"*/\n" +
	"\n" +
	"img,\n" +
	"svg,\n" +
	"video,\n" +
	"canvas,\n" +
	"audio,\n" +
	"iframe,\n" +
	"embed,\n" +
	"object {\n" +
	"  display: block;\n" +
	"  /* 1 */\n" +
	"  vertical-align: middle;\n" +
	"  /* 2 */\n" +
	"}\n" +
	"\n" +
	"/*\n" +
	"Constrain images and videos to the parent width and preserve their intrinsic aspect ratio. (https://github.com/mozdevs/cssremedy/issues/14)\n" +
	"*/\n" +
	"\n" +
	"img,\n" +
	"video {\n" +
	"  max-width: 100%;\n" +
	"  height: auto;\n" +
	"}\n" +
	"\n" +
	"/* Make elements with the HTML hidden attribute stay hidden by default */\n" +
	"\n" +
	"[hidden] {\n" +
	"  display: none;\n" +
	"}\n" +
	"\n" +
	":root {\n" +
	"  --background: 0 0% 100%;\n" +
	"  --foreground: 222.2 84% 4.9%;\n" +
	"  --card: 0 0% 100%;\n" +
	"  --card-foreground: 222.2 84% 4.9%;\n" +
	"  --popover: 0 0% 100%;\n" +
	"  --popover-foreground: 222.2 84% 4.9%;\n" +
	"  --primary: 222.2 47.4% 11.2%;\n" +
	"  --primary-foreground: 210 40% 98%;\n" +
	"  --secondary: 210 40% 96.1%;\n" +
	"  --secondary-foreground: 222.2 47.4% 11.2%;\n" +
	"  --muted: 210 40% 96.1%;\n" +
	"  --muted-foreground: 215.4 16.3% 46.9%;\n" +
	"  --accent: 210 40% 96.1%;\n" +
	"  --accent-foreground: 222.2 47.4% 11.2%;\n" +
	"  --destructive: 0 84.2% 60.2%;\n" +
	"  --destructive-foreground: 210 40% 98%;\n" +
	"  --border: 214.3 31.8% 91.4%;\n" +
	"  --input: 214.3 31.8% 91.4%;\n" +
	"  --ring: 222.2 84% 4.9%;\n" +
	"  --radius: 0.5rem;\n" +
	"  --app: 240 11% 95%;\n" +
	"  --app-foreground: 222.2 84% 4.9%;\n" +
	"  --header: 0 0% 100%;\n" +
	"  --header-foreground: 222.2 84% 4.9%;\n" +
	"}\n" +
	"\n" +
	".dark {\n" +
	"  --background: 222.2 84% 4.9%;\n" +
	"  --foreground: 210 40% 98%;\n" +
	"  --card: 221 39% 11%;\n" +
	"  --card-foreground: 210 40% 98%;\n" +
	"  --popover: 222.2 84% 4.9%;\n" +
	"  --popover-foreground: 210 40% 98%;\n" +
	"  --primary: 210 40% 98%;\n" +
	"  --primary-foreground: 222.2 47.4% 11.2%;\n" +
	"  --secondary: 217.2 32.6% 17.5%;\n" +
	"  --secondary-foreground: 210 40% 98%;\n" +
	"  --muted: 217.2 32.6% 17.5%;\n" +
	"  --muted-foreground: 215 20.2% 65.1%;\n" +
	"  --accent: 217.2 32.6% 17.5%;\n" +
	"  --accent-foreground: 210 40% 98%;\n" +
	"  --destructive: 0 62.8% 30.6%;\n" +
	"  --destructive-foreground: 210 40% 98%;\n" +
	"  --border: 217.2 32.6% 17.5%;\n" +
	"  --input: 217.2 32.6% 17.5%;\n" +
	"  --ring: 212.7 26.8% 83.9;\n" +
	"  --app: 222.2 84% 4.9%;\n" +
	"  /* shadcn std */\n" +
	"  --app-foreground: 210 40% 98%;\n" +
	"  --header: 222.2 84% 4.9%;\n" +
	"  --header-foreground: 222.2 84% 4.9%;\n" +
	"}\n" +
	"\n" +
	"* {\n" +
	"  border-color: hsl(var(--border));\n" +
	"}\n" +
	"\n" +
	"body {\n" +
	"  background-color: hsl(var(--background));\n" +
	"  color: hsl(var(--foreground));\n" +
	"}\n" +
	"\n" +
	"::-webkit-scrollbar {\n" +
	"  width: 0.375rem;\n" +
	"  height: 0.375rem;\n" +
	"}\n" +
	"\n" +
	"::-webkit-scrollbar-track {\n" +
	"  background-color: hsl(var(--muted)) !important;\n" +
	"}\n" +
	"\n" +
	"::-webkit-scrollbar-thumb {\n" +
	"  border-radius: calc(var(--radius) - 4px);\n" +
	"  background-color: hsl(var(--muted-foreground) / 0.3) !important;\n" +
	"}\n" +
	"\n" +
	"/* Firefox */\n" +
	"\n" +
	"/* https://developer.mozilla.org/en-US/docs/Web/CSS/scrollbar-color#browser_compatibility */\n" +
	"\n" +
	"html {\n" +
	"  scrollbar-color: hsl(215.4 16.3% 46.9% / 0.3);\n" +
	"}\n" +
	"\n" +
	"html.dark {\n" +
	"  scrollbar-color: hsl(215.4 16.3% 56.9% / 0.3);\n" +
	"}\n" +
	"\n" +
	"*, ::before, ::after {\n" +
	"  --tw-border-spacing-x: 0;\n" +
	"  --tw-border-spacing-y: 0;\n" +
	"  --tw-translate-x: 0;\n" +
	"  --tw-translate-y: 0;\n" +
	"  --tw-rotate: 0;\n" +
	"  --tw-skew-x: 0;\n" +
	"  --tw-skew-y: 0;\n" +
	"  --tw-scale-x: 1;\n" +
	"  --tw-scale-y: 1;\n" +
	"  --tw-pan-x:  ;\n" +
	"  --tw-pan-y:  ;\n" +
	"  --tw-pinch-zoom:  ;\n" +
	"  --tw-scroll-snap-strictness: proximity;\n" +
	"  --tw-gradient-from-position:  ;\n" +
	"  --tw-gradient-via-position:  ;\n" +
	"  --tw-gradient-to-position:  ;\n" +
	"  --tw-ordinal:  ;\n" +
	"  --tw-slashed-zero:  ;\n" +
	"  --tw-numeric-figure:  ;\n" +
	"  --tw-numeric-spacing:  ;\n" +
	"  --tw-numeric-fraction:  ;\n" +
	"  --tw-ring-inset:  ;\n" +
	"  --tw-ring-offset-width: 0px;\n" +
	"  --tw-ring-offset-color: #fff;\n" +
	"  --tw-ring-color: rgb(59 130 246 / 0.5);\n" +
	"  --tw-ring-offset-shadow: 0 0 #0000;\n" +
	"  --tw-ring-shadow: 0 0 #0000;\n" +
	"  --tw-shadow: 0 0 #0000;\n" +
	"  --tw-shadow-colored: 0 0 #0000;\n" +
	"  --tw-blur:  ;\n" +
	"  --tw-brightness:  ;\n" +
	"  --tw-contrast:  ;\n" +
	"  --tw-grayscale:  ;\n" +
	"  --tw-hue-rotate:  ;\n" +
	"  --tw-invert:  ;\n" +
	"  --tw-saturate:  ;\n" +
	"  --tw-sepia:  ;\n" +
	"  --tw-drop-shadow:  ;\n" +
	"  --tw-backdrop-blur:  ;\n" +
	"  --tw-backdrop-brightness:  ;\n" +
	"  --tw-backdrop-contrast:  ;\n" +
	"  --tw-backdrop-grayscale:  ;\n" +
	"  --tw-backdrop-hue-rotate:  ;\n" +
	"  --tw-backdrop-invert:  ;\n" +
	"  --tw-backdrop-opacity:  ;\n" +
	"  --tw-backdrop-saturate:  ;\n" +
	"  --tw-backdrop-sepia:  ;\n" +
	"}\n" +
	"\n" +
	"::backdrop {\n" +
	"  --tw-border-spacing-x: 0;\n" +
	"  --tw-border-spacing-y: 0;\n" +
	"  --tw-translate-x: 0;\n" +
	"  --tw-translate-y: 0;\n" +
	"  --tw-rotate: 0;\n" +
	"  --tw-skew-x: 0;\n" +
	"  --tw-skew-y: 0;\n" +
	"  --tw-scale-x: 1;\n" +
	"  --tw-scale-y: 1;\n" +
	"  --tw-pan-x:  ;\n" +
	"  --tw-pan-y:  ;\n" +
	"  --tw-pinch-zoom:  ;\n" +
	"  --tw-scroll-snap-strictness: proximity;\n" +
	"  --tw-gradient-from-position:  ;\n" +
	"  --tw-gradient-via-position:  ;\n" +
	"  --tw-gradient-to-position:  ;\n" +
	"  --tw-ordinal:  ;\n" +
	"  --tw-slashed-zero:  ;\n" +
	"  --tw-numeric-figure:  ;\n" +
	"  --tw-numeric-spacing:  ;\n" +
	"  --tw-numeric-fraction:  ;\n" +
	"  --tw-ring-inset:  ;\n" +
	"  --tw-ring-offset-width: 0px;\n" +
	"  --tw-ring-offset-color: #fff;\n" +
	"  --tw-ring-color: rgb(59 130 246 / 0.5);\n" +
	"  --tw-ring-offset-shadow: 0 0 #0000;\n" +
	"  --tw-ring-shadow: 0 0 #0000;\n" +
	"  --tw-shadow: 0 0 #0000;\n" +
	"  --tw-shadow-colored: 0 0 #0000;\n" +
	"  --tw-blur:  ;\n" +
	"  --tw-brightness:  ;\n" +
	"  --tw-contrast:  ;\n" +
	"  --tw-grayscale:  ;\n" +
	"  --tw-hue-rotate:  ;\n" +
	"  --tw-invert:  ;\n" +
	"  --tw-saturate:  ;\n" +
	"  --tw-sepia:  ;\n" +
	"  --tw-drop-shadow:  ;\n" +
	"  --tw-backdrop-blur:  ;\n" +
	"  --tw-backdrop-brightness:  ;\n" +
	"  --tw-backdrop-contrast:  ;\n" +
	"  --tw-backdrop-grayscale:  ;\n" +
	"  --tw-backdrop-hue-rotate:  ;\n" +
	"  --tw-backdrop-invert:  ;\n" +
	"  --tw-backdrop-opacity:  ;\n" +
	"  --tw-backdrop-saturate:  ;\n" +
	"  --tw-backdrop-sepia:  ;\n" +
	"}\n" +
	"\n" +
	".inset-1 {\n" +
	"  inset: 0.25rem;\n" +
	"}\n" +
	"\n" +
	".\\!-inset-x-px {\n" +
	"  left: -1px !important;\n" +
	"  right: -1px !important;\n" +
	"}\n" +
	"\n" +
	".inset-x-1 {\n" +
	"  left: 0.25rem;\n" +
	"  right: 0.25rem;\n" +
	"}\n" +
	"\n" +
	".inset-y-1 {\n" +
	"  top: 0.25rem;\n" +
	"  bottom: 0.25rem;\n" +
	"}\n" +
	"\n" +
	".\\!right-2 {\n" +
	"  right: 0.5rem !important;\n" +
	"}\n" +
	"\n" +
	".-right-1 {\n" +
	"  right: -0.25rem;\n" +
	"}\n" +
	"\n" +
	".-top-12 {\n" +
	"  top: -3rem;\n" +
	"}\n" +
	"\n" +
	".left-1 {\n" +
	"  left: 0.25rem;\n" +
	"}\n" +
	"\n" +
	".right-1 {\n" +
	"  right: 0.25rem;\n" +
	"}\n" +
	"\n" +
	".top-12 {\n" +
	"  top: 3rem;\n" +
	"}\n" +
	"\n" +
	".z-20 {\n" +
	"  z-index: 20;\n" +
	"}\n" +
	"\n" +
	".z-\\[99\\] {\n" +
	"  z-index: 99;\n" +
	"}\n" +
	"\n" +
	".col-span-1 {\n" +
	"  grid-column: span 1 / span 1;\n" +
	"}\n" +
	"\n" +
	".col-span-full {\n" +
	"  grid-column: 1 / -1;\n" +
	"}\n" +
	"\n" +
	".float-start {\n" +
	"  float: inline-start;\n" +
	"}\n" +
	"\n" +
	".float-end {\n" +
	"  float: inline-end;\n" +
	"}\n" +
	"\n" +
	".clear-start {\n" +
	"  clear: inline-start;\n" +
	"}\n" +
	"\n" +
	".clear-end {\n" +
	"  clear: inline-end;\n" +
	"}\n" +
	"\n" +
	".-m-2 {\n" +
	"  margin: -0.5rem;\n" +
	"}\n" +
	"\n" +
	".-m-5 {\n" +
	"  margin: -1.25rem;\n" +
	"}\n" +
	"\n" +
	".m-\\[10px\\] {\n" +
	"  margin: 10px;\n" +
	"}\n" +
	"\n" +
	".m-\\[10rem\\] {\n" +
	"  margin: 10rem;\n" +
	"}\n" +
	"\n" +
	".m-\\[2px\\] {\n" +
	"  margin: 2px;\n" +
	"}\n" +
	"\n" +
	".m-\\[calc\\(100\\%-var\\(--arbitrary\\)\\)\\] {\n" +
	"  margin: calc(100% - var(--arbitrary));\n" +
	"}\n" +
	"\n" +
	".m-\\[length\\:var\\(--mystery-var\\)\\] {\n" +
	"  margin: var(--mystery-var);\n" +
	"}\n" +
	"\n" +
	".m-auto {\n" +
	"  margin: auto;\n" +
	"}\n" +
	"\n" +
	".my-\\[2px\\] {\n" +
	"  margin-top: 2px;\n" +
	"  margin-bottom: 2px;\n" +
	"}\n" +
	"\n" +
	".mt-2 {\n" +
	"  margin-top: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".mt-\\[calc\\(theme\\(fontSize\\.4xl\\)\\/1\\.125\\)\\] {\n" +
	"  margin-top: calc(2.25rem / 1.125);\n" +
	"}\n" +
	"\n" +
	".line-clamp-1 {\n" +
	"  overflow: hidden;\n" +
	"  display: -webkit-box;\n" +
	"  -webkit-box-orient: vertical;\n" +
	"  -webkit-line-clamp: 1;\n" +
	"}\n" +
	"\n" +
	".line-clamp-2 {\n" +
	"  overflow: hidden;\n" +
	"  display: -webkit-box;\n" +
	"  -webkit-box-orient: vertical;\n" +
	"  -webkit-line-clamp: 2;\n" +
	"}\n" +
	"\n" +
	".line-clamp-\\[10\\] {\n" +
	"  overflow: hidden;\n" +
	"  display: -webkit-box;\n" +
	"  -webkit-box-orient: vertical;\n" +
	"  -webkit-line-clamp: 10;\n" +
	"}\n" +
	"\n" +
	".line-clamp-none {\n" +
	"  overflow: visible;\n" +
	"  display: block;\n" +
	"  -webkit-box-orient: horizontal;\n" +
	"  -webkit-line-clamp: none;\n" +
	"}\n" +
	"\n" +
	".block {\n" +
	"  display: block;\n" +
	"}\n" +
	"\n" +
	".inline {\n" +
	"  display: inline;\n" +
	"}\n" +
	"\n" +
	".size-10 {\n" +
	"  width: 2.5rem;\n" +
	"  height: 2.5rem;\n" +
	"}\n" +
	"\n" +
	".h-10 {\n" +
	"  height: 2.5rem;\n" +
	"}\n" +
	"\n" +
	".h-3 {\n" +
	"  height: 0.75rem;\n" +
	"}\n" +
	"\n" +
	".h-dvh {\n" +
	"  height: 100dvh;\n" +
	"}\n" +
	"\n" +
	".h-full {\n" +
	"  height: 100%;\n" +
	"}\n" +
	"\n" +
	".h-min {\n" +
	"  height: -moz-min-content;\n" +
	"  height: min-content;\n" +
	"}\n" +
	"\n" +
	".h-svh {\n" +
	"  height: 100svh;\n" +
	"}\n" +
	"\n" +
	".min-h-\\[0\\.5px\\] {\n" +
	"  min-height: 0.5px;\n" +
	"}\n" +
	"\n" +
	".min-h-\\[0\\] {\n" +
	"  min-height: 0;\n" +
	"}\n" +
	"\n" +
	".w-1\\/2 {\n" +
	"  width: 50%;\n" +
	"}\n" +
	"\n" +
	".w-12 {\n" +
	"  width: 3rem;\n" +
	"}\n" +
	"\n" +
	".w-5 {\n" +
	"  width: 1.25rem;\n" +
	"}\n" +
	"\n" +
	".w-dvw {\n" +
	"  width: 100dvw;\n" +
	"}\n" +
	"\n" +
	".w-fit {\n" +
	"  width: -moz-fit-content;\n" +
	"  width: fit-content;\n" +
	"}\n" +
	"\n" +
	".w-full {\n" +
	"  width: 100%;\n" +
	"}\n" +
	"\n" +
	".w-svw {\n" +
	"  width: 100svw;\n" +
	"}\n" +
	"\n" +
	".min-w-0 {\n" +
	"  min-width: 0px;\n" +
	"}\n" +
	"\n" +
	".min-w-px {\n" +
	"  min-width: 1px;\n" +
	"}\n" +
	"\n" +
	".max-w-0 {\n" +
	"  max-width: 0px;\n" +
	"}\n" +
	"\n" +
	".max-w-px {\n" +
	"  max-width: 1px;\n" +
	"}\n" +
	"\n" +
	".grow {\n" +
	"  flex-grow: 1;\n" +
	"}\n" +
	"\n" +
	".grow-\\[2\\] {\n" +
	"  flex-grow: 2;\n" +
	"}\n" +
	"\n" +
	".basis-auto {\n" +
	"  flex-basis: auto;\n" +
	"}\n" +
	"\n" +
	".basis-full {\n" +
	"  flex-basis: 100%;\n" +
	"}\n" +
	"\n" +
	".caption-top {\n" +
	"  caption-side: top;\n" +
	"}\n" +
	"\n" +
	".caption-bottom {\n" +
	"  caption-side: bottom;\n" +
	"}\n" +
	"\n" +
	".scale-75 {\n" +
	"  --tw-scale-x: .75;\n" +
	"  --tw-scale-y: .75;\n" +
	"  transform: translate(var(--tw-translate-x), var(--tw-translate-y)) rotate(var(--tw-rotate)) skewX(var(--tw-skew-x)) skewY(var(--tw-skew-y)) scaleX(var(--tw-scale-x)) scaleY(var(--tw-scale-y));\n" +
	"}\n" +
	"\n" +
	".scale-\\[1\\.7\\] {\n" +
	"  --tw-scale-x: 1.7;\n" +
	"  --tw-scale-y: 1.7;\n" +
	"  transform: translate(var(--tw-translate-x), var(--tw-translate-y)) rotate(var(--tw-rotate)) skewX(var(--tw-skew-x)) skewY(var(--tw-skew-y)) scaleX(var(--tw-scale-x)) scaleY(var(--tw-scale-y));\n" +
	"}\n" +
	"\n" +
	".cursor-\\[grab\\] {\n" +
	"  cursor: grab;\n" +
	"}\n" +
	"\n" +
	".cursor-pointer {\n" +
	"  cursor: pointer;\n" +
	"}\n" +
	"\n" +
	".touch-auto {\n" +
	"  touch-action: auto;\n" +
	"}\n" +
	"\n" +
	".touch-none {\n" +
	"  touch-action: none;\n" +
	"}\n" +
	"\n" +
	".touch-pan-x {\n" +
	"  --tw-pan-x: pan-x;\n" +
	"  touch-action: var(--tw-pan-x) var(--tw-pan-y) var(--tw-pinch-zoom);\n" +
	"}\n" +
	"\n" +
	".touch-pan-right {\n" +
	"  --tw-pan-x: pan-right;\n" +
	"  touch-action: var(--tw-pan-x) var(--tw-pan-y) var(--tw-pinch-zoom);\n" +
	"}\n" +
	"\n" +
	".touch-pan-y {\n" +
	"  --tw-pan-y: pan-y;\n" +
	"  touch-action: var(--tw-pan-x) var(--tw-pan-y) var(--tw-pinch-zoom);\n" +
	"}\n" +
	"\n" +
	".touch-pinch-zoom {\n" +
	"  --tw-pinch-zoom: pinch-zoom;\n" +
	"  touch-action: var(--tw-pan-x) var(--tw-pan-y) var(--tw-pinch-zoom);\n" +
	"}\n" +
	"\n" +
	".touch-manipulation {\n" +
	"  touch-action: manipulation;\n" +
	"}\n" +
	"\n" +
	".appearance-none {\n" +
	"  -webkit-appearance: none;\n" +
	"     -moz-appearance: none;\n" +
	"          appearance: none;\n" +
	"}\n" +
	"\n" +
	".appearance-auto {\n" +
	"  -webkit-appearance: auto;\n" +
	"     -moz-appearance: auto;\n" +
	"          appearance: auto;\n" +
	"}\n" +
	"\n" +
	".grid-cols-2 {\n" +
	"  grid-template-columns: repeat(2, minmax(0, 1fr));\n" +
	"}\n" +
	"\n" +
	".grid-cols-subgrid {\n" +
	"  grid-template-columns: subgrid;\n" +
	"}\n" +
	"\n" +
	".grid-rows-2 {\n" +
	"  grid-template-rows: repeat(2, minmax(0, 1fr));\n" +
	"}\n" +
	"\n" +
	".grid-rows-3 {\n" +
	"  grid-template-rows: repeat(3, minmax(0, 1fr));\n" +
	"}\n" +
	"\n" +
	".grid-rows-5 {\n" +
	"  grid-template-rows: repeat(5, minmax(0, 1fr));\n" +
	"}\n" +
	"\n" +
	".grid-rows-\\[1fr\\2c auto\\] {\n" +
	"  grid-template-rows: 1fr auto;\n" +
	"}\n" +
	"\n" +
	".grid-rows-\\[repeat\\(20\\2c minmax\\(0\\2c 1fr\\)\\)\\] {\n" +
	"  grid-template-rows: repeat(20,minmax(0,1fr));\n" +
	"}\n" +
	"\n" +
	".grid-rows-subgrid {\n" +
	"  grid-template-rows: subgrid;\n" +
	"}\n" +
	"\n" +
	".content-normal {\n" +
	"  align-content: normal;\n" +
	"}\n" +
	"\n" +
	".content-center {\n" +
	"  align-content: center;\n" +
	"}\n" +
	"\n" +
	".content-stretch {\n" +
	"  align-content: stretch;\n" +
	"}\n" +
	"\n" +
	".justify-normal {\n" +
	"  justify-content: normal;\n" +
	"}\n" +
	"\n" +
	".justify-center {\n" +
	"  justify-content: center;\n" +
	"}\n" +
	"\n" +
	".justify-stretch {\n" +
	"  justify-content: stretch;\n" +
	"}\n" +
	"\n" +
	".overflow-auto {\n" +
	"  overflow: auto;\n" +
	"}\n" +
	"\n" +
	".overflow-x-auto {\n" +
	"  overflow-x: auto;\n" +
	"}\n" +
	"\n" +
	".overflow-x-hidden {\n" +
	"  overflow-x: hidden;\n" +
	"}\n" +
	"\n" +
	".overflow-x-scroll {\n" +
	"  overflow-x: scroll;\n" +
	"}\n" +
	"\n" +
	".hyphens-manual {\n" +
	"  -webkit-hyphens: manual;\n" +
	"          hyphens: manual;\n" +
	"}\n" +
	"\n" +
	".hyphens-auto {\n" +
	"  -webkit-hyphens: auto;\n" +
	"          hyphens: auto;\n" +
	"}\n" +
	"\n" +
	".whitespace-nowrap {\n" +
	"  white-space: nowrap;\n" +
	"}\n" +
	"\n" +
	".whitespace-break-spaces {\n" +
	"  white-space: break-spaces;\n" +
	"}\n" +
	"\n" +
	".text-wrap {\n" +
	"  text-wrap: wrap;\n" +
	"}\n" +
	"\n" +
	".text-pretty {\n" +
	"  text-wrap: pretty;\n" +
	"}\n" +
	"\n" +
	".border-b {\n" +
	"  border-bottom-width: 1px;\n" +
	"}\n" +
	"\n" +
	".border-t {\n" +
	"  border-top-width: 1px;\n" +
	"}\n" +
	"\n" +
	".border-white {\n" +
	"  --tw-border-opacity: 1;\n" +
	"  border-color: rgb(255 255 255 / var(--tw-border-opacity));\n" +
	"}\n" +
	"\n" +
	".border-white\\/10 {\n" +
	"  border-color: rgb(255 255 255 / 0.1);\n" +
	"}\n" +
	"\n" +
	".from-0\\% {\n" +
	"  --tw-gradient-from-position: 0%;\n" +
	"}\n" +
	"\n" +
	".bg-\\[length\\:200px_100px\\] {\n" +
	"  background-size: 200px 100px;\n" +
	"}\n" +
	"\n" +
	".bg-\\[percentage\\:30\\%\\] {\n" +
	"  background-size: 30%;\n" +
	"}\n" +
	"\n" +
	".bg-cover {\n" +
	"  background-size: cover;\n" +
	"}\n" +
	"\n" +
	".stroke-\\[hsl\\(350_80\\%_0\\%\\)\\] {\n" +
	"  stroke: hsl(350 80% 0%);\n" +
	"}\n" +
	"\n" +
	".stroke-black {\n" +
	"  stroke: #000;\n" +
	"}\n" +
	"\n" +
	".stroke-1 {\n" +
	"  stroke-width: 1;\n" +
	"}\n" +
	"\n" +
	".stroke-2 {\n" +
	"  stroke-width: 2;\n" +
	"}\n" +
	"\n" +
	".stroke-\\[10px\\] {\n" +
	"  stroke-width: 10px;\n" +
	"}\n" +
	"\n" +
	".stroke-\\[3\\] {\n" +
	"  stroke-width: 3;\n" +
	"}\n" +
	"\n" +
	".p-1 {\n" +
	"  padding: 0.25rem;\n" +
	"}\n" +
	"\n" +
	".p-2 {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".p-\\[calc\\(theme\\(fontSize\\.4xl\\)\\/1\\.125\\)_10px\\] {\n" +
	"  padding: calc(2.25rem / 1.125) 10px;\n" +
	"}\n" +
	"\n" +
	".text-2xl {\n" +
	"  font-size: 1.5rem;\n" +
	"  line-height: 2rem;\n" +
	"}\n" +
	"\n" +
	".text-\\[0\\.5px\\] {\n" +
	"  font-size: 0.5px;\n" +
	"}\n" +
	"\n" +
	".text-\\[calc\\(theme\\(fontSize\\.4xl\\)\\/1\\.125\\)\\] {\n" +
	"  font-size: calc(2.25rem / 1.125);\n" +
	"}\n" +
	"\n" +
	".text-lg\\/7 {\n" +
	"  font-size: 1.125rem;\n" +
	"  line-height: 1.75rem;\n" +
	"}\n" +
	"\n" +
	".text-lg\\/8 {\n" +
	"  font-size: 1.125rem;\n" +
	"  line-height: 2rem;\n" +
	"}\n" +
	"\n" +
	".text-lg\\/none {\n" +
	"  font-size: 1.125rem;\n" +
	"  line-height: 1;\n" +
	"}\n" +
	"\n" +
	".\\!font-bold {\n" +
	"  font-weight: 700 !important;\n" +
	"}\n" +
	"\n" +
	".\\!font-medium {\n" +
	"  font-weight: 500 !important;\n" +
	"}\n" +
	"\n" +
	".font-thin {\n" +
	"  font-weight: 100;\n" +
	"}\n" +
	"\n" +
	".normal-nums {\n" +
	"  font-variant-numeric: normal;\n" +
	"}\n" +
	"\n" +
	".lining-nums {\n" +
	"  --tw-numeric-figure: lining-nums;\n" +
	"  font-variant-numeric: var(--tw-ordinal) var(--tw-slashed-zero) var(--tw-numeric-figure) var(--tw-numeric-spacing) var(--tw-numeric-fraction);\n" +
	"}\n" +
	"\n" +
	".proportional-nums {\n" +
	"  --tw-numeric-spacing: proportional-nums;\n" +
	"  font-variant-numeric: var(--tw-ordinal) var(--tw-slashed-zero) var(--tw-numeric-figure) var(--tw-numeric-spacing) var(--tw-numeric-fraction);\n" +
	"}\n" +
	"\n" +
	".tabular-nums {\n" +
	"  --tw-numeric-spacing: tabular-nums;\n" +
	"  font-variant-numeric: var(--tw-ordinal) var(--tw-slashed-zero) var(--tw-numeric-figure) var(--tw-numeric-spacing) var(--tw-numeric-fraction);\n" +
	"}\n" +
	"\n" +
	".diagonal-fractions {\n" +
	"  --tw-numeric-fraction: diagonal-fractions;\n" +
	"  font-variant-numeric: var(--tw-ordinal) var(--tw-slashed-zero) var(--tw-numeric-figure) var(--tw-numeric-spacing) var(--tw-numeric-fraction);\n" +
	"}\n" +
	"\n" +
	".leading-9 {\n" +
	"  line-height: 2.25rem;\n" +
	"}\n" +
	"\n" +
	".text-\\[--my-0\\] {\n" +
	"  color: var(--my-0);\n" +
	"}\n" +
	"\n" +
	".text-\\[color\\:0\\] {\n" +
	"  color: 0;\n" +
	"}\n" +
	"\n" +
	".text-black {\n" +
	"  --tw-text-opacity: 1;\n" +
	"  color: rgb(0 0 0 / var(--tw-text-opacity));\n" +
	"}\n" +
	"\n" +
	".underline {\n" +
	"  text-decoration-line: underline;\n" +
	"}\n" +
	"\n" +
	".line-through {\n" +
	"  text-decoration-line: line-through;\n" +
	"}\n" +
	"\n" +
	".no-underline {\n" +
	"  text-decoration-line: none;\n" +
	"}\n" +
	"\n" +
	".opacity-10 {\n" +
	"  opacity: 0.1;\n" +
	"}\n" +
	"\n" +
	".opacity-\\[0\\.025\\] {\n" +
	"  opacity: 0.025;\n" +
	"}\n" +
	"\n" +
	".mix-blend-normal {\n" +
	"  mix-blend-mode: normal;\n" +
	"}\n" +
	"\n" +
	".mix-blend-multiply {\n" +
	"  mix-blend-mode: multiply;\n" +
	"}\n" +
	"\n" +
	".shadow {\n" +
	"  --tw-shadow: 0 1px 3px 0 rgb(0 0 0 / 0.1), 0 1px 2px -1px rgb(0 0 0 / 0.1);\n" +
	"  --tw-shadow-colored: 0 1px 3px 0 var(--tw-shadow-color), 0 1px 2px -1px var(--tw-shadow-color);\n" +
	"  box-shadow: var(--tw-ring-offset-shadow, 0 0 #0000), var(--tw-ring-shadow, 0 0 #0000), var(--tw-shadow);\n" +
	"}\n" +
	"\n" +
	".shadow-md {\n" +
	"  --tw-shadow: 0 4px 6px -1px rgb(0 0 0 / 0.1), 0 2px 4px -2px rgb(0 0 0 / 0.1);\n" +
	"  --tw-shadow-colored: 0 4px 6px -1px var(--tw-shadow-color), 0 2px 4px -2px var(--tw-shadow-color);\n" +
	"  box-shadow: var(--tw-ring-offset-shadow, 0 0 #0000), var(--tw-ring-shadow, 0 0 #0000), var(--tw-shadow);\n" +
	"}\n" +
	"\n" +
	".outline-1 {\n" +
	"  outline-width: 1px;\n" +
	"}\n" +
	"\n" +
	".outline-black {\n" +
	"  outline-color: #000;\n" +
	"}\n" +
	"\n" +
	".ring {\n" +
	"  --tw-ring-offset-shadow: var(--tw-ring-inset) 0 0 0 var(--tw-ring-offset-width) var(--tw-ring-offset-color);\n" +
	"  --tw-ring-shadow: var(--tw-ring-inset) 0 0 0 calc(3px + var(--tw-ring-offset-width)) var(--tw-ring-color);\n" +
	"  box-shadow: var(--tw-ring-offset-shadow), var(--tw-ring-shadow), var(--tw-shadow, 0 0 #0000);\n" +
	"}\n" +
	"\n" +
	".ring-2 {\n" +
	"  --tw-ring-offset-shadow: var(--tw-ring-inset) 0 0 0 var(--tw-ring-offset-width) var(--tw-ring-offset-color);\n" +
	"  --tw-ring-shadow: var(--tw-ring-inset) 0 0 0 calc(2px + var(--tw-ring-offset-width)) var(--tw-ring-color);\n" +
	"  box-shadow: var(--tw-ring-offset-shadow), var(--tw-ring-shadow), var(--tw-shadow, 0 0 #0000);\n" +
	"}\n" +
	"\n" +
	".brightness-90 {\n" +
	"  --tw-brightness: brightness(.9);\n" +
	"  filter: var(--tw-blur) var(--tw-brightness) var(--tw-contrast) var(--tw-grayscale) var(--tw-hue-rotate) var(--tw-invert) var(--tw-saturate) var(--tw-sepia) var(--tw-drop-shadow);\n" +
	"}\n" +
	"\n" +
	".brightness-\\[1\\.75\\] {\n" +
	"  --tw-brightness: brightness(1.75);\n" +
	"  filter: var(--tw-blur) var(--tw-brightness) var(--tw-contrast) var(--tw-grayscale) var(--tw-hue-rotate) var(--tw-invert) var(--tw-saturate) var(--tw-sepia) var(--tw-drop-shadow);\n" +
	"}\n" +
	"\n" +
	".grayscale-0 {\n" +
	"  --tw-grayscale: grayscale(0);\n" +
	"  filter: var(--tw-blur) var(--tw-brightness) var(--tw-contrast) var(--tw-grayscale) var(--tw-hue-rotate) var(--tw-invert) var(--tw-saturate) var(--tw-sepia) var(--tw-drop-shadow);\n" +
	"}\n" +
	"\n" +
	".grayscale-\\[50\\%\\] {\n" +
	"  --tw-grayscale: grayscale(50%);\n" +
	"  filter: var(--tw-blur) var(--tw-brightness) var(--tw-contrast) var(--tw-grayscale) var(--tw-hue-rotate) var(--tw-invert) var(--tw-saturate) var(--tw-sepia) var(--tw-drop-shadow);\n" +
	"}\n" +
	"\n" +
	".delay-0 {\n" +
	"  transition-delay: 0s;\n" +
	"}\n" +
	"\n" +
	".delay-150 {\n" +
	"  transition-delay: 150ms;\n" +
	"}\n" +
	"\n" +
	".duration-0 {\n" +
	"  transition-duration: 0s;\n" +
	"}\n" +
	"\n" +
	".duration-150 {\n" +
	"  transition-duration: 150ms;\n" +
	"}\n" +
	"\n" +
	".content-\\[\\'hello\\'\\] {\n" +
	"  --tw-content: 'hello';\n" +
	"  content: var(--tw-content);\n" +
	"}\n" +
	"\n" +
	".content-\\[attr\\(data-content\\)\\] {\n" +
	"  --tw-content: attr(data-content);\n" +
	"  content: var(--tw-content);\n" +
	"}\n" +
	"\n" +
	".forced-color-adjust-auto {\n" +
	"  forced-color-adjust: auto;\n" +
	"}\n" +
	"\n" +
	".forced-color-adjust-none {\n" +
	"  forced-color-adjust: none;\n" +
	"}\n" +
	"\n" +
	"@keyframes enter {\n" +
	"  from {\n" +
	"    opacity: var(--tw-enter-opacity, 1);\n" +
	"    transform: translate3d(var(--tw-enter-translate-x, 0), var(--tw-enter-translate-y, 0), 0) scale3d(var(--tw-enter-scale, 1), var(--tw-enter-scale, 1), var(--tw-enter-scale, 1)) rotate(var(--tw-enter-rotate, 0));\n" +
	"  }\n" +
	"}\n" +
	"\n" +
	"@keyframes exit {\n" +
	"  to {\n" +
	"    opacity: var(--tw-exit-opacity, 1);\n" +
	"    transform: translate3d(var(--tw-exit-translate-x, 0), var(--tw-exit-translate-y, 0), 0) scale3d(var(--tw-exit-scale, 1), var(--tw-exit-scale, 1), var(--tw-exit-scale, 1)) rotate(var(--tw-exit-rotate, 0));\n" +
	"  }\n" +
	"}\n" +
	"\n" +
	".duration-0 {\n" +
	"  animation-duration: 0s;\n" +
	"}\n" +
	"\n" +
	".duration-150 {\n" +
	"  animation-duration: 150ms;\n" +
	"}\n" +
	"\n" +
	".delay-0 {\n" +
	"  animation-delay: 0s;\n" +
	"}\n" +
	"\n" +
	".delay-150 {\n" +
	"  animation-delay: 150ms;\n" +
	"}\n" +
	"\n" +
	".\\!\\[some\\:another\\] {\n" +
	"  some: another !important;\n" +
	"}\n" +
	"\n" +
	".\\!\\[some\\:prop\\] {\n" +
	"  some: prop !important;\n" +
	"}\n" +
	"\n" +
	".\\[-unknown-prop\\:url\\(https\\:\\/\\/hi\\.com\\)\\] {\n" +
	"  -unknown-prop: url(https://hi.com);\n" +
	"}\n" +
	"\n" +
	".\\[paint-order\\:markers\\] {\n" +
	"  paint-order: markers;\n" +
	"}\n" +
	"\n" +
	".\\[paint-order\\:normal\\] {\n" +
	"  paint-order: normal;\n" +
	"}\n" +
	"\n" +
	".\\[some\\:one\\] {\n" +
	"  some: one;\n" +
	"}\n" +
	"\n" +
	".\\[some\\:other\\] {\n" +
	"  some: other;\n" +
	"}\n" +
	"\n" +
	"/* Scrollbars */\n" +
	"\n" +
	"::view-transition-old(root),\n" +
	"::view-transition-new(root) {\n" +
	"  animation-duration: 0.2s;\n" +
	"}\n" +
	"\n" +
	".\\*\\:p-10 > * {\n" +
	"  padding: 2.5rem;\n" +
	"}\n" +
	"\n" +
	".\\*\\:p-20 > * {\n" +
	"  padding: 5rem;\n" +
	"}\n" +
	"\n" +
	".read-only\\:p-2:-moz-read-only {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".read-only\\:p-2:read-only {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".read-only\\:p-3:-moz-read-only {\n" +
	"  padding: 0.75rem;\n" +
	"}\n" +
	"\n" +
	".read-only\\:p-3:read-only {\n" +
	"  padding: 0.75rem;\n" +
	"}\n" +
	"\n" +
	".empty\\:p-2:empty {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".empty\\:p-3:empty {\n" +
	"  padding: 0.75rem;\n" +
	"}\n" +
	"\n" +
	".focus-within\\:block:focus-within {\n" +
	"  display: block;\n" +
	"}\n" +
	"\n" +
	".focus-within\\:inline:focus-within {\n" +
	"  display: inline;\n" +
	"}\n" +
	"\n" +
	".hover\\:left-1:hover {\n" +
	"  left: 0.25rem;\n" +
	"}\n" +
	"\n" +
	".hover\\:m-\\[2px\\]:hover {\n" +
	"  margin: 2px;\n" +
	"}\n" +
	"\n" +
	".hover\\:m-\\[length\\:var\\(--c\\)\\]:hover {\n" +
	"  margin: var(--c);\n" +
	"}\n" +
	"\n" +
	".hover\\:block:hover {\n" +
	"  display: block;\n" +
	"}\n" +
	"\n" +
	".hover\\:inline:hover {\n" +
	"  display: inline;\n" +
	"}\n" +
	"\n" +
	".hover\\:overflow-x-hidden:hover {\n" +
	"  overflow-x: hidden;\n" +
	"}\n" +
	"\n" +
	".hover\\:\\[paint-order\\:markers\\]:hover {\n" +
	"  paint-order: markers;\n" +
	"}\n" +
	"\n" +
	".hover\\:\\[paint-order\\:normal\\]:hover {\n" +
	"  paint-order: normal;\n" +
	"}\n" +
	"\n" +
	".hover\\:\\*\\:p-10 > *:hover {\n" +
	"  padding: 2.5rem;\n" +
	"}\n" +
	"\n" +
	".hover\\:\\*\\:p-20 > *:hover {\n" +
	"  padding: 5rem;\n" +
	"}\n" +
	"\n" +
	".hover\\:empty\\:p-2:empty:hover {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".hover\\:empty\\:p-3:empty:hover {\n" +
	"  padding: 0.75rem;\n" +
	"}\n" +
	"\n" +
	".focus\\:\\!block:focus {\n" +
	"  display: block !important;\n" +
	"}\n" +
	"\n" +
	".focus\\:block:focus {\n" +
	"  display: block;\n" +
	"}\n" +
	"\n" +
	".focus\\:\\!inline:focus {\n" +
	"  display: inline !important;\n" +
	"}\n" +
	"\n" +
	".focus\\:inline:focus {\n" +
	"  display: inline;\n" +
	"}\n" +
	"\n" +
	".focus\\:hover\\:inset-x-1:hover:focus {\n" +
	"  left: 0.25rem;\n" +
	"  right: 0.25rem;\n" +
	"}\n" +
	"\n" +
	".hover\\:focus\\:-right-1:focus:hover {\n" +
	"  right: -0.25rem;\n" +
	"}\n" +
	"\n" +
	".focus\\:hover\\:m-\\[length\\:var\\(--c\\)\\]:hover:focus {\n" +
	"  margin: var(--c);\n" +
	"}\n" +
	"\n" +
	".hover\\:focus\\:m-\\[2px\\]:focus:hover {\n" +
	"  margin: 2px;\n" +
	"}\n" +
	"\n" +
	".hover\\:focus\\:block:focus:hover {\n" +
	"  display: block;\n" +
	"}\n" +
	"\n" +
	".focus\\:hover\\:inline:hover:focus {\n" +
	"  display: inline;\n" +
	"}\n" +
	"\n" +
	".hover\\:focus\\:inline:focus:hover {\n" +
	"  display: inline;\n" +
	"}\n" +
	"\n" +
	".focus\\:hover\\:\\[paint-order\\:normal\\]:hover:focus {\n" +
	"  paint-order: normal;\n" +
	"}\n" +
	"\n" +
	".hover\\:focus\\:\\[paint-order\\:markers\\]:focus:hover {\n" +
	"  paint-order: markers;\n" +
	"}\n" +
	"\n" +
	".group:-moz-read-only .group-read-only\\:p-2 {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".group:read-only .group-read-only\\:p-2 {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".group:-moz-read-only .group-read-only\\:p-3 {\n" +
	"  padding: 0.75rem;\n" +
	"}\n" +
	"\n" +
	".group:read-only .group-read-only\\:p-3 {\n" +
	"  padding: 0.75rem;\n" +
	"}\n" +
	"\n" +
	".group:empty .group-empty\\:p-2 {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".group:empty .group-empty\\:p-3 {\n" +
	"  padding: 0.75rem;\n" +
	"}\n" +
	"\n" +
	".group:empty .hover\\:group-empty\\:p-2:hover {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".group:empty .hover\\:group-empty\\:p-3:hover {\n" +
	"  padding: 0.75rem;\n" +
	"}\n" +
	"\n" +
	".peer:empty ~ .peer-empty\\:p-2 {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	"\n" +
	".peer:empty ~ .peer-empty\\:p-3 {\n" +
	"  padding: 0.75rem;\n" +
	"}\n" +
	"\n" +
	"@supports (display:grid) {\n" +
	"  .supports-\\[display\\:grid\\]\\:flex {\n" +
	"    display: flex;\n" +
	"  }\n" +
	"\n" +
	"  .supports-\\[display\\:grid\\]\\:grid {\n" +
	"    display: grid;\n" +
	"  }\n" +
	"}\n" +
	"\n" +
	".\\[\\&\\>\\*\\]\\:underline>* {\n" +
	"  text-decoration-line: underline;\n" +
	"}\n" +
	"\n" +
	".\\[\\&\\>\\*\\]\\:line-through>* {\n" +
	"  text-decoration-line: line-through;\n" +
	"}\n" +
	"\n" +
	".\\[\\&\\>\\*\\]\\:\\[color\\:blue\\]>* {\n" +
	"  color: blue;\n" +
	"}\n" +
	"\n" +
	".\\[\\&\\>\\*\\]\\:\\[color\\:red\\]>* {\n" +
	"  color: red;\n" +
	"}\n" +
	"\n" +
	".hover\\:\\[\\&\\>\\*\\]\\:underline>*:hover {\n" +
	"  text-decoration-line: underline;\n" +
	"}\n" +
	"\n" +
	".\\[\\&\\>\\*\\]\\:hover\\:line-through:hover>* {\n" +
	"  text-decoration-line: line-through;\n" +
	"}\n" +
	"\n" +
	"@media (min-width: 1024px) {\n" +
	"  :is(.dark .dark\\:lg\\:hover\\:\\[\\&\\>\\*\\]\\:underline>*:hover) {\n" +
	"    text-decoration-line: underline;\n" +
	"  }\n" +
	"\n" +
	"  :is(.dark .dark\\:hover\\:lg\\:\\[\\&\\>\\*\\]\\:line-through>*:hover) {\n" +
	"    text-decoration-line: line-through;\n" +
	"  }\n" +
	"\n" +
	"  :is(.dark .dark\\:lg\\:hover\\:\\[\\&\\>\\*\\]\\:line-through>*:hover) {\n" +
	"    text-decoration-line: line-through;\n" +
	"  }\n" +
	"}\n" +
	"\n" +
	":is(.dark .dark\\:bg-blue-500\\/20) {\n" +
	"  background-color: rgb(59 130 246 / 0.2);\n" +
	"}\n" +
	"\n" +
	":is(.dark .dark\\:bg-green-500\\/20) {\n" +
	"  background-color: rgb(34 197 94 / 0.2);\n" +
	"}\n" +
	"\n" +
	".\\[\\&\\[data-open\\]\\]\\:underline[data-open] {\n" +
	"  text-decoration-line: underline;\n" +
	"}\n" +
	"\n" +
	".\\[\\&\\[data-open\\]\\]\\:line-through[data-open] {\n" +
	"  text-decoration-line: line-through;\n" +
	"}\n" +
	"\n" +
	".\\[\\&_div\\]\\:line-through div {\n" +
	"  text-decoration-line: line-through;\n" +
	"}\n" +
	"\n" +
	".\\[\\&\\>\\*\\]\\:\\[\\&_div\\]\\:underline div>* {\n" +
	"  text-decoration-line: underline;\n" +
	"}\n" +
	"\n" +
	".\\[\\&\\>\\*\\]\\:\\[\\&_div\\]\\:line-through div>* {\n" +
	"  text-decoration-line: line-through;\n" +
	"}\n" +
	"\n" +
	".\\[\\&_div\\]\\:\\[\\&\\>\\*\\]\\:line-through>* div {\n" +
	"  text-decoration-line: line-through;\n" +
	"}\n" +
	"\n" +
	".p-1 {\n" +
	"  padding: 0.25rem;\n" +
	"}\n" +
	".p-2 {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	".p-3Important {\n" +
	"  padding: 0.5rem !important;\n" +
	"}\n" +
	".read-only\\:p-2:read-only {\n" +
	"  padding: 0.5rem;\n" +
	"}\n" +
	".h-10 {\n" +
	"  height: 2.5rem;\n" +
	"}\n" +
	".h-full {\n" +
	"  height: 100%;\n" +
	"}\n" +
	".mix-blend-normal {\n" +
	"  mix-blend-mode: normal;\n" +
	"}\n" +
	".mix-blend-multiply {\n" +
	"  mix-blend-mode: multiply;\n" +
	"}\n" +
	".hover\\:block:hover {\n" +
	"  display: block;\n" +
	"}\n" +
	".hover\\:inline:hover {\n" +
	"  display: inline;\n" +
	"}\n" +
	".underline {\n" +
	"  text-decoration-line: underline;\n" +
	"}\n" +
	".line-through {\n" +
	"  text-decoration-line: line-through;\n" +
	"}\n" +
	".border-t {\n" +
	"  border-top-width: 1px;\n" +
	"} \n" +
	".border-white {\n" +
	"  --tw-border-opacity: 1;\n" +
	"  border-color: rgb(255 255 255 / var(--tw-border-opacity));\n" +
	"}\n" +
	"\n" +
	".border-white\\/10 {\n" +
	"  border-color: rgb(255 255 255 / 0.1);\n" +
	"}\n" +
	".inset-1 {\n" +
	"  inset: 0.25rem;\n" +
	"}\n" +
	".right-1 {\n" +
	"  right: 0.25rem;\n" +
	"}\n" +
	".w-fit {\n" +
	"  width: -moz-fit-content;\n" +
	"  width: fit-content;\n" +
	"}\n" +
	".w-full {\n" +
	"  width: 100%;\n" +
	"}\n" +
	"\n" +
	".shadow {\n" +
	"  --tw-shadow: 0 1px 3px 0 rgb(0 0 0 / 0.1), 0 1px 2px -1px rgb(0 0 0 / 0.1);\n" +
	"  --tw-shadow-colored: 0 1px 3px 0 var(--tw-shadow-color), 0 1px 2px -1px var(--tw-shadow-color);\n" +
	"  box-shadow: var(--tw-ring-offset-shadow, 0 0 #0000), var(--tw-ring-shadow, 0 0 #0000), var(--tw-shadow);\n" +
	"}\n" +
	"\n" +
	".ring {\n" +
	"  --tw-ring-offset-shadow: var(--tw-ring-inset) 0 0 0 var(--tw-ring-offset-width) var(--tw-ring-offset-color);\n" +
	"  --tw-ring-shadow: var(--tw-ring-inset) 0 0 0 calc(3px + var(--tw-ring-offset-width)) var(--tw-ring-color);\n" +
	"  box-shadow: var(--tw-ring-offset-shadow), var(--tw-ring-shadow), var(--tw-shadow, 0 0 #0000);\n" +
	"}\n" +
	"\n" +
	".space-x-16 > :not([hidden]) ~ :not([hidden]) {\n" +
	"  --tw-space-x-reverse: 0;\n" +
	"  margin-right: calc(4rem * var(--tw-space-x-reverse));\n" +
	"  margin-left: calc(4rem * calc(1 - var(--tw-space-x-reverse)));\n" +
	"}\n" +
	"  \n" +
	".space-x-2 > :not([hidden]) ~ :not([hidden]) {\n" +
	"  --tw-space-x-reverse: 0;\n" +
	"  margin-right: calc(0.5rem * var(--tw-space-x-reverse));\n" +
	"  margin-left: calc(0.5rem * calc(1 - var(--tw-space-x-reverse)));\n" +
	"}\n" +
	"\n" +
	".stroke-black {\n" +
	"  stroke: #000;\n" +
	"}\n" +
	"  \n" +
	".stroke-1 {\n" +
	"  stroke-width: 1;\n" +
	"}\n" +
	"\n" +
	".hover\\:bg-accent:hover {\n" +
	"  background-color: hsl(var(--accent));\n" +
	"}\n" +
	"\n" +
	".hover\\:bg-destructive\\/90:hover {\n" +
	"  background-color: hsl(var(--destructive) / 0.9);\n" +
	"}\n" +
	"\n" +
	".class1 .class2 {\n" +
	"  padding: 10px;\n" +
	"}\n" +
	"\n" +
	".class3 {\n" +
	"  padding: 20px;\n" +
	"}\n"

const tailwindMore = "/* in the manner of Tailwind 3 */\n" +
	".container{width:100%}\n" +
	"@media (min-width: 640px){\n" +
	"  .container{max-width:640px}\n" +
	"}\n" +
	"@media (min-width: 768px){\n" +
	"  .container{max-width:768px}\n" +
	"}\n" +
	".sr-only{position:absolute;width:1px;height:1px;padding:0;margin:-1px;overflow:hidden;clip:rect(0, 0, 0, 0);white-space:nowrap;border-width:0}\n" +
	".not-sr-only{position:static;width:auto;height:auto;padding:0;margin:0;overflow:visible;clip:auto;white-space:normal}\n" +
	".inset-0{inset:0px}\n" +
	".inset-x-0{left:0px;right:0px}\n" +
	".inset-y-0{top:0px;bottom:0px}\n" +
	".-top-1{top:-0.25rem}\n" +
	".top-\\[3px\\]{top:3px}\n" +
	".start-1{inset-inline-start:0.25rem}\n" +
	".\\!m-1{margin:0.25rem !important}\n" +
	".m-\\[calc\\(100\\%-1rem\\)\\]{margin:calc(100% - 1rem)}\n" +
	".mx-auto{margin-left:auto;margin-right:auto}\n" +
	".-mx-2{margin-left:-0.5rem;margin-right:-0.5rem}\n" +
	".my-0\\.5{margin-top:0.125rem;margin-bottom:0.125rem}\n" +
	".ms-2{margin-inline-start:0.5rem}\n" +
	".\\!mt-2{margin-top:0.5rem!important}\n" +
	".mt-2{margin-top:0.5rem}\n" +
	".line-clamp-2{overflow:hidden;display:-webkit-box;-webkit-box-orient:vertical;-webkit-line-clamp:2}\n" +
	".line-clamp-none{overflow:visible;display:block;-webkit-box-orient:horizontal;-webkit-line-clamp:none}\n" +
	".size-4{width:1rem;height:1rem}\n" +
	".w-1\\/2{width:50%}\n" +
	".w-\\[var\\(--w\\)\\]{width:var(--w)}\n" +
	".\\[--w\\:3px\\]{--w:3px}\n" +
	".h-screen{height:100vh}\n" +
	".h-dvh{height:100vh;height:100dvh}\n" +
	".flex-1{flex:1 1 0%}\n" +
	".grow{flex-grow:1}\n" +
	".shrink-0{flex-shrink:0}\n" +
	".basis-1\\/2{flex-basis:50%}\n" +
	".border-separate{border-collapse:separate}\n" +
	".border-spacing-1{--tw-border-spacing-x:0.25rem;--tw-border-spacing-y:0.25rem;border-spacing:var(--tw-border-spacing-x) var(--tw-border-spacing-y)}\n" +
	".border-spacing-x-2{--tw-border-spacing-x:0.5rem;border-spacing:var(--tw-border-spacing-x) var(--tw-border-spacing-y)}\n" +
	".-translate-x-1\\/2{--tw-translate-x:-50%;transform:translate(var(--tw-translate-x), var(--tw-translate-y)) rotate(var(--tw-rotate)) skewX(var(--tw-skew-x)) skewY(var(--tw-skew-y)) scaleX(var(--tw-scale-x)) scaleY(var(--tw-scale-y))}\n" +
	".translate-y-2{--tw-translate-y:0.5rem;transform:translate(var(--tw-translate-x), var(--tw-translate-y)) rotate(var(--tw-rotate)) skewX(var(--tw-skew-x)) skewY(var(--tw-skew-y)) scaleX(var(--tw-scale-x)) scaleY(var(--tw-scale-y))}\n" +
	".rotate-45{--tw-rotate:45deg;transform:translate(var(--tw-translate-x), var(--tw-translate-y)) rotate(var(--tw-rotate)) skewX(var(--tw-skew-x)) skewY(var(--tw-skew-y)) scaleX(var(--tw-scale-x)) scaleY(var(--tw-scale-y))}\n" +
	".scale-50{--tw-scale-x:.5;--tw-scale-y:.5;transform:translate(var(--tw-translate-x), var(--tw-translate-y)) rotate(var(--tw-rotate)) skewX(var(--tw-skew-x)) skewY(var(--tw-skew-y)) scaleX(var(--tw-scale-x)) scaleY(var(--tw-scale-y))}\n" +
	".scale-x-75{--tw-scale-x:.75;transform:translate(var(--tw-translate-x), var(--tw-translate-y)) rotate(var(--tw-rotate)) skewX(var(--tw-skew-x)) skewY(var(--tw-skew-y)) scaleX(var(--tw-scale-x)) scaleY(var(--tw-scale-y))}\n" +
	".transform-none{transform:none}\n" +
	"@keyframes spin{\n" +
	"  to{transform:rotate(360deg)}\n" +
	"}\n" +
	".animate-spin{animation:spin 1s linear infinite}\n" +
	".touch-pan-x{--tw-pan-x:pan-x;touch-action:var(--tw-pan-x) var(--tw-pan-y) var(--tw-pinch-zoom)}\n" +
	".touch-pan-y{--tw-pan-y:pan-y;touch-action:var(--tw-pan-x) var(--tw-pan-y) var(--tw-pinch-zoom)}\n" +
	".touch-auto{touch-action:auto}\n" +
	".snap-x{scroll-snap-type:x var(--tw-scroll-snap-strictness)}\n" +
	".snap-mandatory{--tw-scroll-snap-strictness:mandatory}\n" +
	".scroll-m-1{scroll-margin:0.25rem}\n" +
	".scroll-mt-2{scroll-margin-top:0.5rem}\n" +
	".columns-2{-moz-columns:2;columns:2}\n" +
	".grid-cols-2{grid-template-columns:repeat(2, minmax(0, 1fr))}\n" +
	".gap-2{gap:0.5rem}\n" +
	".gap-x-4{-moz-column-gap:1rem;column-gap:1rem}\n" +
	".gap-y-4{row-gap:1rem}\n" +
	".space-y-2 > :not([hidden]) ~ :not([hidden]){--tw-space-y-reverse:0;margin-top:calc(0.5rem * calc(1 - var(--tw-space-y-reverse)));margin-bottom:calc(0.5rem * var(--tw-space-y-reverse))}\n" +
	".space-y-4 > :not([hidden]) ~ :not([hidden]){--tw-space-y-reverse:0;margin-top:calc(1rem * calc(1 - var(--tw-space-y-reverse)));margin-bottom:calc(1rem * var(--tw-space-y-reverse))}\n" +
	".space-y-reverse > :not([hidden]) ~ :not([hidden]){--tw-space-y-reverse:1}\n" +
	".divide-x > :not([hidden]) ~ :not([hidden]){--tw-divide-x-reverse:0;border-right-width:calc(1px * var(--tw-divide-x-reverse));border-left-width:calc(1px * calc(1 - var(--tw-divide-x-reverse)))}\n" +
	".divide-x-reverse > :not([hidden]) ~ :not([hidden]){--tw-divide-x-reverse:1}\n" +
	".divide-dashed > :not([hidden]) ~ :not([hidden]){border-style:dashed}\n" +
	".place-items-center{place-items:center}\n" +
	".items-end{align-items:flex-end}\n" +
	".overflow-hidden{overflow:hidden}\n" +
	".overflow-x-auto{overflow-x:auto}\n" +
	".overflow-y-scroll{overflow-y:scroll}\n" +
	".overscroll-y-none{overscroll-behavior-y:none}\n" +
	".truncate{overflow:hidden;text-overflow:ellipsis;white-space:nowrap}\n" +
	".rounded{border-radius:0.25rem}\n" +
	".rounded-t-lg{border-top-left-radius:0.5rem;border-top-right-radius:0.5rem}\n" +
	".rounded-tl-none{border-top-left-radius:0px}\n" +
	".border{border-width:1px}\n" +
	".border-x-2{border-left-width:2px;border-right-width:2px}\n" +
	".border-t{border-top-width:1px}\n" +
	".border-dashed{border-style:dashed}\n" +
	".border-white{--tw-border-opacity:1;border-color:rgb(255 255 255 / var(--tw-border-opacity))}\n" +
	".border-white\\/10{border-color:rgb(255 255 255 / 0.1)}\n" +
	".border-l-black{--tw-border-opacity:1;border-left-color:rgb(0 0 0 / var(--tw-border-opacity))}\n" +
	".border-opacity-50{--tw-border-opacity:0.5}\n" +
	".bg-white{--tw-bg-opacity:1;background-color:rgb(255 255 255 / var(--tw-bg-opacity))}\n" +
	".bg-black\\/50{background-color:rgb(0 0 0 / 0.5)}\n" +
	".bg-opacity-20{--tw-bg-opacity:0.2}\n" +
	".bg-gradient-to-r{background-image:linear-gradient(to right, var(--tw-gradient-stops))}\n" +
	".bg-none{background-image:none}\n" +
	".bg-\\[url\\(\\'\\/img\\/a\\.svg\\'\\)\\]{background-image:url('/img/a.svg')}\n" +
	".from-black{--tw-gradient-from:#000 var(--tw-gradient-from-position);--tw-gradient-to:rgb(0 0 0 / 0) var(--tw-gradient-to-position);--tw-gradient-stops:var(--tw-gradient-from), var(--tw-gradient-to)}\n" +
	".from-10\\%{--tw-gradient-from-position:10%}\n" +
	".via-white{--tw-gradient-to:rgb(255 255 255 / 0)  var(--tw-gradient-to-position);--tw-gradient-stops:var(--tw-gradient-from), #fff var(--tw-gradient-via-position), var(--tw-gradient-to)}\n" +
	".to-white{--tw-gradient-to:#fff var(--tw-gradient-to-position)}\n" +
	".bg-fixed{background-attachment:fixed}\n" +
	".object-cover{-o-object-fit:cover;object-fit:cover}\n" +
	".p-4{padding:1rem}\n" +
	".px-2{padding-left:0.5rem;padding-right:0.5rem}\n" +
	".pl-1{padding-left:0.25rem}\n" +
	".font-sans{font-family:ui-sans-serif, system-ui, sans-serif, \"Apple Color Emoji\", \"Segoe UI Emoji\"}\n" +
	".text-lg{font-size:1.125rem;line-height:1.75rem}\n" +
	".text-sm\\/6{font-size:0.875rem;line-height:1.5rem}\n" +
	".leading-none{line-height:1}\n" +
	".font-\\[\\'Open_Sans\\'\\]{font-family:'Open Sans'}\n" +
	".ordinal{--tw-ordinal:ordinal;font-variant-numeric:var(--tw-ordinal) var(--tw-slashed-zero) var(--tw-numeric-figure) var(--tw-numeric-spacing) var(--tw-numeric-fraction)}\n" +
	".tabular-nums{--tw-numeric-spacing:tabular-nums;font-variant-numeric:var(--tw-ordinal) var(--tw-slashed-zero) var(--tw-numeric-figure) var(--tw-numeric-spacing) var(--tw-numeric-fraction)}\n" +
	".normal-nums{font-variant-numeric:normal}\n" +
	".underline{text-decoration-line:underline}\n" +
	".text-black{--tw-text-opacity:1;color:rgb(0 0 0 / var(--tw-text-opacity))}\n" +
	".text-opacity-50{--tw-text-opacity:0.5}\n" +
	".antialiased{-webkit-font-smoothing:antialiased;-moz-osx-font-smoothing:grayscale}\n" +
	".placeholder-black::-moz-placeholder{--tw-placeholder-opacity:1;color:rgb(0 0 0 / var(--tw-placeholder-opacity))}\n" +
	".placeholder-black::placeholder{--tw-placeholder-opacity:1;color:rgb(0 0 0 / var(--tw-placeholder-opacity))}\n" +
	".placeholder-white::placeholder{--tw-placeholder-opacity:1;color:rgb(255 255 255 / var(--tw-placeholder-opacity))}\n" +
	".opacity-50{opacity:0.5}\n" +
	".shadow-lg{--tw-shadow:0 10px 15px -3px rgb(0 0 0 / 0.1), 0 4px 6px -4px rgb(0 0 0 / 0.1);--tw-shadow-colored:0 10px 15px -3px var(--tw-shadow-color), 0 4px 6px -4px var(--tw-shadow-color);box-shadow:var(--tw-ring-offset-shadow, 0 0 #0000), var(--tw-ring-shadow, 0 0 #0000), var(--tw-shadow)}\n" +
	".shadow-black{--tw-shadow-color:#000;--tw-shadow:var(--tw-shadow-colored)}\n" +
	".ring-2{--tw-ring-offset-shadow:var(--tw-ring-inset) 0 0 0 var(--tw-ring-offset-width) var(--tw-ring-offset-color);--tw-ring-shadow:var(--tw-ring-inset) 0 0 0 calc(2px + var(--tw-ring-offset-width)) var(--tw-ring-color);box-shadow:var(--tw-ring-offset-shadow), var(--tw-ring-shadow), var(--tw-shadow, 0 0 #0000)}\n" +
	".ring-inset{--tw-ring-inset:inset}\n" +
	".ring-white{--tw-ring-opacity:1;--tw-ring-color:rgb(255 255 255 / var(--tw-ring-opacity))}\n" +
	".ring-opacity-50{--tw-ring-opacity:0.5}\n" +
	".ring-offset-2{--tw-ring-offset-width:2px}\n" +
	".blur-sm{--tw-blur:blur(4px);filter:var(--tw-blur) var(--tw-brightness) var(--tw-drop-shadow)}\n" +
	".drop-shadow{--tw-drop-shadow:drop-shadow(0 1px 2px rgb(0 0 0 / 0.1)) drop-shadow(0 1px 1px rgb(0 0 0 / 0.06));filter:var(--tw-blur) var(--tw-brightness) var(--tw-drop-shadow)}\n" +
	".filter-none{filter:none}\n" +
	".backdrop-blur{--tw-backdrop-blur:blur(8px);-webkit-backdrop-filter:var(--tw-backdrop-blur);backdrop-filter:var(--tw-backdrop-blur)}\n" +
	".transition{transition-property:color, background-color, transform, -webkit-backdrop-filter;transition-timing-function:cubic-bezier(0.4, 0, 0.2, 1);transition-duration:150ms}\n" +
	".transition-none{transition-property:none}\n" +
	".duration-300{transition-duration:300ms}\n" +
	".ease-in{transition-timing-function:cubic-bezier(0.4, 0, 1, 1)}\n" +
	".content-\\[\\'\\;\\}\\'\\]{--tw-content:';}';content:var(--tw-content)}\n" +
	".\\[mask-type\\:luminance\\]{mask-type:luminance}\n" +
	".\\[\\&\\>p\\]\\:mt-2>p{margin-top:0.5rem}\n" +
	".\\[\\&\\:hover_\\.x\\]\\:p-4:hover .x{padding:1rem}\n" +
	".before\\:block::before{content:var(--tw-content);display:block}\n" +
	".before\\:content-\\[\\'a\\'\\]::before{--tw-content:'a';content:var(--tw-content)}\n" +
	".before\\:inline::before{content:var(--tw-content);display:inline}\n" +
	".first\\:mt-2:first-child{margin-top:0.5rem}\n" +
	".odd\\:bg-white:nth-child(odd){--tw-bg-opacity:1;background-color:rgb(255 255 255 / var(--tw-bg-opacity))}\n" +
	".even\\:bg-white:nth-child(even){--tw-bg-opacity:1;background-color:rgb(255 255 255 / var(--tw-bg-opacity))}\n" +
	".hover\\:p-4:hover{padding:1rem}\n" +
	".hover\\:pl-1:hover{padding-left:0.25rem}\n" +
	".hover\\:px-2:hover{padding-left:0.5rem;padding-right:0.5rem}\n" +
	".hover\\:\\!pl-1:hover{padding-left:0.25rem !important}\n" +
	".hover\\:bg-white:hover{--tw-bg-opacity:1;background-color:rgb(255 255 255 / var(--tw-bg-opacity))}\n" +
	".hover\\:bg-opacity-20:hover{--tw-bg-opacity:0.2}\n" +
	".focus\\:hover\\:p-4:hover:focus{padding:1rem}\n" +
	".hover\\:focus\\:p-0:focus:hover{padding:0px}\n" +
	".focus\\:outline-none:focus{outline:2px solid transparent;outline-offset:2px}\n" +
	".focus\\:outline-1:focus{outline-width:1px}\n" +
	".focus-visible\\:ring-2:focus-visible{--tw-ring-offset-shadow:var(--tw-ring-inset) 0 0 0 var(--tw-ring-offset-width) var(--tw-ring-offset-color);--tw-ring-shadow:var(--tw-ring-inset) 0 0 0 calc(2px + var(--tw-ring-offset-width)) var(--tw-ring-color);box-shadow:var(--tw-ring-offset-shadow), var(--tw-ring-shadow), var(--tw-shadow, 0 0 #0000)}\n" +
	".disabled\\:opacity-50:disabled{opacity:0.5}\n" +
	".group:hover .group-hover\\:p-4{padding:1rem}\n" +
	".group:hover .group-hover\\:pl-1{padding-left:0.25rem}\n" +
	".group\\/a:hover .group-hover\\/a\\:p-4{padding:1rem}\n" +
	".peer:checked ~ .peer-checked\\:p-4{padding:1rem}\n" +
	".peer:checked ~ .peer-checked\\:p-0{padding:0px}\n" +
	".has-\\[\\:checked\\]\\:p-4:has(:checked){padding:1rem}\n" +
	".aria-checked\\:p-4[aria-checked=\"true\"]{padding:1rem}\n" +
	".aria-checked\\:p-0[aria-checked=\"true\"]{padding:0px}\n" +
	".data-\\[state\\=open\\]\\:p-4[data-state=\"open\"]{padding:1rem}\n" +
	".data-\\[state\\=open\\]\\:p-0[data-state=open]{padding:0px}\n" +
	"@supports (display:grid){\n" +
	"  .supports-\\[display\\:grid\\]\\:grid{display:grid}\n" +
	"  .supports-grid\\:flex{display:flex}\n" +
	"}\n" +
	"@supports (backdrop-filter:blur(0)) or (-webkit-backdrop-filter:blur(0)){\n" +
	"  .supports-backdrop\\:bg-white{background-color:#fff}\n" +
	"}\n" +
	"@media (prefers-reduced-motion: reduce){\n" +
	"  .motion-reduce\\:transition-none{transition-property:none}\n" +
	"  @keyframes spin{to{transform:none}}\n" +
	"  .motion-reduce\\:animate-none{animation:none}\n" +
	"}\n" +
	"@media print{\n" +
	"  .print\\:hidden{display:none}\n" +
	"  .print\\:block{display:block}\n" +
	"}\n" +
	"@media (min-width: 640px){\n" +
	"  .sm\\:container{width:100%}\n" +
	"  @media (min-width: 640px){\n" +
	"    .sm\\:container{max-width:640px}\n" +
	"  }\n" +
	"  .sm\\:p-4{padding:1rem}\n" +
	"  .sm\\:px-2{padding-left:0.5rem;padding-right:0.5rem}\n" +
	"  .sm\\:block{display:block}\n" +
	"  .sm\\:hover\\:p-4:hover{padding:1rem}\n" +
	"  .sm\\:hover\\:pl-1:hover{padding-left:0.25rem}\n" +
	"  .sm\\:w-\\[var\\(--w\\)\\]{width:var(--w)}\n" +
	"  .group:hover .sm\\:group-hover\\:p-4{padding:1rem}\n" +
	"}\n" +
	"@media not all and (min-width: 640px){\n" +
	"  .max-sm\\:p-4{padding:1rem}\n" +
	"  .max-sm\\:p-0{padding:0px}\n" +
	"}\n" +
	"@media (min-width: 768px){\n" +
	"  .md\\:p-4{padding:1rem}\n" +
	"  .md\\:px-2{padding-left:0.5rem;padding-right:0.5rem}\n" +
	"  .md\\:-mt-1\\.5{margin-top:-0.375rem}\n" +
	"  .md\\:m-0{margin:0px}\n" +
	"  .md\\:first\\:mt-2:first-child{margin-top:0.5rem}\n" +
	"  @media (hover: hover) and (pointer: fine){\n" +
	"    .md\\:can-hover\\:p-4{padding:1rem}\n" +
	"    .md\\:can-hover\\:p-0{padding:0px}\n" +
	"  }\n" +
	"  @media print{\n" +
	"    .md\\:print\\:block{display:block}\n" +
	"    .md\\:print\\:hidden{display:none}\n" +
	"  }\n" +
	"}\n" +
	"@media (min-width: 1024px) and (max-width:1279.98px){\n" +
	"  .lg\\:max-xl\\:block{display:block}\n" +
	"  .lg\\:max-xl\\:hidden{display:none}\n" +
	"}\n" +
	":is(.dark .dark\\:p-4){padding:1rem}\n" +
	":is(.dark .dark\\:p-0){padding:0px}\n" +
	":is(.dark .dark\\:hover\\:p-4:hover){padding:1rem}\n" +
	":is(.dark .dark\\:hover\\:p-0):hover{padding:0px}\n" +
	".dark\\:bg-black:is(.dark *){background-color:#000}\n" +
	".dark\\:bg-white:is(.dark *){--tw-bg-opacity:1;background-color:rgb(255 255 255 / var(--tw-bg-opacity))}\n" +
	"@media (min-width: 768px){\n" +
	"  :is(.dark .md\\:dark\\:p-4){padding:1rem}\n" +
	"  :is(.dark .md\\:dark\\:p-0){padding:0px}\n" +
	"}\n" +
	":where([dir=\"rtl\"]) .rtl\\:p-4{padding:1rem}\n" +
	"[dir=\"rtl\"] .rtl\\:p-0{padding:0px}\n" +
	".rtl\\:pl-1:where([dir=\"rtl\"], [dir=\"rtl\"] *){padding-left:0.25rem}\n" +
	".btn{display:inline-flex;border:1px solid var(--btn-border, var(--border));padding:0 1rem}\n" +
	".btn.btn-primary{background:hsl(var(--primary));color:#fff}\n" +
	".btn:not(.btn-ghost):hover{opacity:.9}\n" +
	".card > .card-title{font:600 1rem/1.5 sans-serif}\n" +
	".prose :where(p):not(:where([class~=\"not-prose\"],[class~=\"not-prose\"] *)){margin-top:1.25em;margin-bottom:1.25em}\n" +
	".prose-lg :where(p):not(:where([class~=\"not-prose\"],[class~=\"not-prose\"] *)){margin-top:1.33em;margin-bottom:1.33em}\n" +
	".form-input,.form-select{appearance:none;border-color:#6b7280;border-width:1px;padding:0.5rem 0.75rem}\n" +
	".form-input:focus, .form-select:focus{outline:2px solid transparent;--tw-ring-inset:var(--tw-empty,/*!*/ /*!*/);box-shadow:var(--tw-ring-inset)}\n" +
	"\n"
