package mcore

// longhandTable is the reference for shorthands: property -> longhands. See mkref.py.
var longhandTable = map[string][]string{
	"--*":                             {"--*"},
	"-moz-appearance":                 {"-moz-appearance"},
	"-moz-binding":                    {"-moz-binding"},
	"-moz-border-bottom-colors":       {"-moz-border-bottom-colors"},
	"-moz-border-left-colors":         {"-moz-border-left-colors"},
	"-moz-border-right-colors":        {"-moz-border-right-colors"},
	"-moz-border-top-colors":          {"-moz-border-top-colors"},
	"-moz-context-properties":         {"-moz-context-properties"},
	"-moz-float-edge":                 {"-moz-float-edge"},
	"-moz-force-broken-image-icon":    {"-moz-force-broken-image-icon"},
	"-moz-image-region":               {"-moz-image-region"},
	"-moz-orient":                     {"-moz-orient"},
	"-moz-outline-radius":             {"-moz-outline-radius-bottomleft", "-moz-outline-radius-bottomright", "-moz-outline-radius-topleft", "-moz-outline-radius-topright"},
	"-moz-outline-radius-bottomleft":  {"-moz-outline-radius-bottomleft"},
	"-moz-outline-radius-bottomright": {"-moz-outline-radius-bottomright"},
	"-moz-outline-radius-topleft":     {"-moz-outline-radius-topleft"},
	"-moz-outline-radius-topright":    {"-moz-outline-radius-topright"},
	"-moz-stack-sizing":               {"-moz-stack-sizing"},
	"-moz-text-blink":                 {"-moz-text-blink"},
	"-moz-user-focus":                 {"-moz-user-focus"},
	"-moz-user-input":                 {"-moz-user-input"},
	"-moz-user-modify":                {"-moz-user-modify"},
	"-moz-window-dragging":            {"-moz-window-dragging"},
	"-moz-window-shadow":              {"-moz-window-shadow"},
	"-ms-accelerator":                 {"-ms-accelerator"},
	"-ms-block-progression":           {"-ms-block-progression"},
	"-ms-content-zoom-chaining":       {"-ms-content-zoom-chaining"},
	"-ms-content-zoom-limit":          {"-ms-content-zoom-limit-max", "-ms-content-zoom-limit-min"},
	"-ms-content-zoom-limit-max":      {"-ms-content-zoom-limit-max"},
	"-ms-content-zoom-limit-min":      {"-ms-content-zoom-limit-min"},
	"-ms-content-zoom-snap":           {"-ms-content-zoom-snap-points", "-ms-content-zoom-snap-type"},
	"-ms-content-zoom-snap-points":    {"-ms-content-zoom-snap-points"},
	"-ms-content-zoom-snap-type":      {"-ms-content-zoom-snap-type"},
	"-ms-content-zooming":             {"-ms-content-zooming"},
	"-ms-filter":                      {"-ms-filter"},
	"-ms-flow-from":                   {"-ms-flow-from"},
	"-ms-flow-into":                   {"-ms-flow-into"},
	"-ms-grid-columns":                {"-ms-grid-columns"},
	"-ms-grid-rows":                   {"-ms-grid-rows"},
	"-ms-high-contrast-adjust":        {"-ms-high-contrast-adjust"},
	"-ms-hyphenate-limit-chars":       {"-ms-hyphenate-limit-chars"},
	"-ms-hyphenate-limit-lines":       {"-ms-hyphenate-limit-lines"},
	"-ms-hyphenate-limit-zone":        {"-ms-hyphenate-limit-zone"},
	"-ms-ime-align":                   {"-ms-ime-align"},
	"-ms-overflow-style":              {"-ms-overflow-style"},
	"-ms-scroll-chaining":             {"-ms-scroll-chaining"},
	"-ms-scroll-limit":                {"-ms-scroll-limit-x-max", "-ms-scroll-limit-x-min", "-ms-scroll-limit-y-max", "-ms-scroll-limit-y-min"},
	"-ms-scroll-limit-x-max":          {"-ms-scroll-limit-x-max"},
	"-ms-scroll-limit-x-min":          {"-ms-scroll-limit-x-min"},
	"-ms-scroll-limit-y-max":          {"-ms-scroll-limit-y-max"},
	"-ms-scroll-limit-y-min":          {"-ms-scroll-limit-y-min"},
	"-ms-scroll-rails":                {"-ms-scroll-rails"},
	"-ms-scroll-snap-points-x":        {"-ms-scroll-snap-points-x"},
	"-ms-scroll-snap-points-y":        {"-ms-scroll-snap-points-y"},
	"-ms-scroll-snap-type":            {"-ms-scroll-snap-type"},
	"-ms-scroll-snap-x":               {"-ms-scroll-snap-points-x", "-ms-scroll-snap-type"},
	"-ms-scroll-snap-y":               {"-ms-scroll-snap-points-y", "-ms-scroll-snap-type"},
	"-ms-scroll-translation":          {"-ms-scroll-translation"},
	"-ms-scrollbar-3dlight-color":     {"-ms-scrollbar-3dlight-color"},
	"-ms-scrollbar-arrow-color":       {"-ms-scrollbar-arrow-color"},
	"-ms-scrollbar-base-color":        {"-ms-scrollbar-base-color"},
	"-ms-scrollbar-darkshadow-color":  {"-ms-scrollbar-darkshadow-color"},
	"-ms-scrollbar-face-color":        {"-ms-scrollbar-face-color"},
	"-ms-scrollbar-highlight-color":   {"-ms-scrollbar-highlight-color"},
	"-ms-scrollbar-shadow-color":      {"-ms-scrollbar-shadow-color"},
	"-ms-scrollbar-track-color":       {"-ms-scrollbar-track-color"},
	"-ms-text-autospace":              {"-ms-text-autospace"},
	"-ms-touch-select":                {"-ms-touch-select"},
	"-ms-user-select":                 {"-ms-user-select"},
	"-ms-wrap-flow":                   {"-ms-wrap-flow"},
	"-ms-wrap-margin":                 {"-ms-wrap-margin"},
	"-ms-wrap-through":                {"-ms-wrap-through"},
	"-webkit-appearance":              {"-webkit-appearance"},
	"-webkit-border-before":           {"border-block-start-color", "border-block-start-style", "border-block-start-width"},
	"-webkit-border-before-color":     {"-webkit-border-before-color"},
	"-webkit-border-before-style":     {"-webkit-border-before-style"},
	"-webkit-border-before-width":     {"-webkit-border-before-width"},
	"-webkit-box-reflect":             {"-webkit-box-reflect"},
	"-webkit-line-clamp":              {"-webkit-line-clamp"},
	"-webkit-mask":                    {"-webkit-mask-attachment", "-webkit-mask-clip", "-webkit-mask-image", "-webkit-mask-origin", "-webkit-mask-position", "-webkit-mask-repeat"},
	"-webkit-mask-attachment":         {"-webkit-mask-attachment"},
	"-webkit-mask-clip":               {"-webkit-mask-clip"},
	"-webkit-mask-composite":          {"-webkit-mask-composite"},
	"-webkit-mask-image":              {"-webkit-mask-image"},
	"-webkit-mask-origin":             {"-webkit-mask-origin"},
	"-webkit-mask-position":           {"-webkit-mask-position"},
	"-webkit-mask-position-x":         {"-webkit-mask-position-x"},
	"-webkit-mask-position-y":         {"-webkit-mask-position-y"},
	"-webkit-mask-repeat":             {"-webkit-mask-repeat"},
	"-webkit-mask-repeat-x":           {"-webkit-mask-repeat-x"},
	"-webkit-mask-repeat-y":           {"-webkit-mask-repeat-y"},
	"-webkit-mask-size":               {"-webkit-mask-size"},
	"-webkit-overflow-scrolling":      {"-webkit-overflow-scrolling"},
	"-webkit-tap-highlight-color":     {"-webkit-tap-highlight-color"},
	"-webkit-text-fill-color":         {"-webkit-text-fill-color"},
	"-webkit-text-stroke":             {"-webkit-text-stroke-color", "-webkit-text-stroke-width"},
	"-webkit-text-stroke-color":       {"-webkit-text-stroke-color"},
	"-webkit-text-stroke-width":       {"-webkit-text-stroke-width"},
	"-webkit-touch-callout":           {"-webkit-touch-callout"},
	"-webkit-user-modify":             {"-webkit-user-modify"},
	"accent-color":                    {"accent-color"},
	"align-content":                   {"align-content"},
	"align-items":                     {"align-items"},
	"align-self":                      {"align-self"},
	"align-tracks":                    {"align-tracks"},
	"all":                             {"all"},
	"animation":                       {"animation-delay", "animation-direction", "animation-duration", "animation-fill-mode", "animation-iteration-count", "animation-name", "animation-play-state", "animation-timeline", "animation-timing-function"},
	"animation-composition":           {"animation-composition"},
	"animation-delay":                 {"animation-delay"},
	"animation-direction":             {"animation-direction"},
	"animation-duration":              {"animation-duration"},
	"animation-fill-mode":             {"animation-fill-mode"},
	"animation-iteration-count":       {"animation-iteration-count"},
	"animation-name":                  {"animation-name"},
	"animation-play-state":            {"animation-play-state"},
	"animation-range":                 {"animation-range-end", "animation-range-start"},
	"animation-range-end":             {"animation-range-end"},
	"animation-range-start":           {"animation-range-start"},
	"animation-timeline":              {"animation-timeline"},
	"animation-timing-function":       {"animation-timing-function"},
	"appearance":                      {"appearance"},
	"aspect-ratio":                    {"aspect-ratio"},
	"azimuth":                         {"azimuth"},
	"backdrop-filter":                 {"backdrop-filter"},
	"backface-visibility":             {"backface-visibility"},
	"background":                      {"background-attachment", "background-clip", "background-color", "background-image", "background-origin", "background-position-x", "background-position-y", "background-repeat", "background-size"},
	"background-attachment":           {"background-attachment"},
	"background-blend-mode":           {"background-blend-mode"},
	"background-clip":                 {"background-clip"},
	"background-color":                {"background-color"},
	"background-image":                {"background-image"},
	"background-origin":               {"background-origin"},
	"background-position":             {"background-position-x", "background-position-y"},
	"background-position-x":           {"background-position-x"},
	"background-position-y":           {"background-position-y"},
	"background-repeat":               {"background-repeat"},
	"background-size":                 {"background-size"},
	"block-size":                      {"block-size"},
	"border":                          {"border-bottom-color", "border-bottom-style", "border-bottom-width", "border-left-color", "border-left-style", "border-left-width", "border-right-color", "border-right-style", "border-right-width", "border-top-color", "border-top-style", "border-top-width"},
	"border-block":                    {"border-block-end-color", "border-block-end-style", "border-block-end-width", "border-block-start-color", "border-block-start-style", "border-block-start-width"},
	"border-block-color":              {"border-block-end-color", "border-block-start-color"},
	"border-block-end":                {"border-block-end-color", "border-block-end-style", "border-block-end-width"},
	"border-block-end-color":          {"border-block-end-color"},
	"border-block-end-style":          {"border-block-end-style"},
	"border-block-end-width":          {"border-block-end-width"},
	"border-block-start":              {"border-block-start-color", "border-block-start-style", "border-block-start-width"},
	"border-block-start-color":        {"border-block-start-color"},
	"border-block-start-style":        {"border-block-start-style"},
	"border-block-start-width":        {"border-block-start-width"},
	"border-block-style":              {"border-block-end-style", "border-block-start-style"},
	"border-block-width":              {"border-block-end-width", "border-block-start-width"},
	"border-bottom":                   {"border-bottom-color", "border-bottom-style", "border-bottom-width"},
	"border-bottom-color":             {"border-bottom-color"},
	"border-bottom-left-radius":       {"border-bottom-left-radius"},
	"border-bottom-right-radius":      {"border-bottom-right-radius"},
	"border-bottom-style":             {"border-bottom-style"},
	"border-bottom-width":             {"border-bottom-width"},
	"border-collapse":                 {"border-collapse"},
	"border-color":                    {"border-bottom-color", "border-left-color", "border-right-color", "border-top-color"},
	"border-end-end-radius":           {"border-end-end-radius"},
	"border-end-start-radius":         {"border-end-start-radius"},
	"border-image":                    {"border-image-outset", "border-image-repeat", "border-image-slice", "border-image-source", "border-image-width"},
	"border-image-outset":             {"border-image-outset"},
	"border-image-repeat":             {"border-image-repeat"},
	"border-image-slice":              {"border-image-slice"},
	"border-image-source":             {"border-image-source"},
	"border-image-width":              {"border-image-width"},
	"border-inline":                   {"border-inline-end-color", "border-inline-end-style", "border-inline-end-width", "border-inline-start-color", "border-inline-start-style", "border-inline-start-width"},
	"border-inline-color":             {"border-inline-end-color", "border-inline-start-color"},
	"border-inline-end":               {"border-inline-end-color", "border-inline-end-style", "border-inline-end-width"},
	"border-inline-end-color":         {"border-inline-end-color"},
	"border-inline-end-style":         {"border-inline-end-style"},
	"border-inline-end-width":         {"border-inline-end-width"},
	"border-inline-start":             {"border-inline-start-color", "border-inline-start-style", "border-inline-start-width"},
	"border-inline-start-color":       {"border-inline-start-color"},
	"border-inline-start-style":       {"border-inline-start-style"},
	"border-inline-start-width":       {"border-inline-start-width"},
	"border-inline-style":             {"border-inline-end-style", "border-inline-start-style"},
	"border-inline-width":             {"border-inline-end-width", "border-inline-start-width"},
	"border-left":                     {"border-left-color", "border-left-style", "border-left-width"},
	"border-left-color":               {"border-left-color"},
	"border-left-style":               {"border-left-style"},
	"border-left-width":               {"border-left-width"},
	"border-radius":                   {"border-bottom-left-radius", "border-bottom-right-radius", "border-top-left-radius", "border-top-right-radius"},
	"border-right":                    {"border-right-color", "border-right-style", "border-right-width"},
	"border-right-color":              {"border-right-color"},
	"border-right-style":              {"border-right-style"},
	"border-right-width":              {"border-right-width"},
	"border-spacing":                  {"border-spacing"},
	"border-start-end-radius":         {"border-start-end-radius"},
	"border-start-start-radius":       {"border-start-start-radius"},
	"border-style":                    {"border-bottom-style", "border-left-style", "border-right-style", "border-top-style"},
	"border-top":                      {"border-top-color", "border-top-style", "border-top-width"},
	"border-top-color":                {"border-top-color"},
	"border-top-left-radius":          {"border-top-left-radius"},
	"border-top-right-radius":         {"border-top-right-radius"},
	"border-top-style":                {"border-top-style"},
	"border-top-width":                {"border-top-width"},
	"border-width":                    {"border-bottom-width", "border-left-width", "border-right-width", "border-top-width"},
	"bottom":                          {"bottom"},
	"box-align":                       {"box-align"},
	"box-decoration-break":            {"box-decoration-break"},
	"box-direction":                   {"box-direction"},
	"box-flex":                        {"box-flex"},
	"box-flex-group":                  {"box-flex-group"},
	"box-lines":                       {"box-lines"},
	"box-ordinal-group":               {"box-ordinal-group"},
	"box-orient":                      {"box-orient"},
	"box-pack":                        {"box-pack"},
	"box-shadow":                      {"box-shadow"},
	"box-sizing":                      {"box-sizing"},
	"break-after":                     {"break-after"},
	"break-before":                    {"break-before"},
	"break-inside":                    {"break-inside"},
	"caption-side":                    {"caption-side"},
	"caret":                           {"caret-color", "caret-shape"},
	"caret-color":                     {"caret-color"},
	"caret-shape":                     {"caret-shape"},
	"clear":                           {"clear"},
	"clip":                            {"clip"},
	"clip-path":                       {"clip-path"},
	"color":                           {"color"},
	"color-scheme":                    {"color-scheme"},
	"column-count":                    {"column-count"},
	"column-fill":                     {"column-fill"},
	"column-gap":                      {"column-gap"},
	"column-rule":                     {"column-rule-color", "column-rule-style", "column-rule-width"},
	"column-rule-color":               {"column-rule-color"},
	"column-rule-style":               {"column-rule-style"},
	"column-rule-width":               {"column-rule-width"},
	"column-span":                     {"column-span"},
	"column-width":                    {"column-width"},
	"columns":                         {"column-count", "column-width"},
	"contain":                         {"contain"},
	"contain-intrinsic-block-size":    {"contain-intrinsic-block-size"},
	"contain-intrinsic-height":        {"contain-intrinsic-height"},
	"contain-intrinsic-inline-size":   {"contain-intrinsic-inline-size"},
	"contain-intrinsic-size":          {"contain-intrinsic-height", "contain-intrinsic-width"},
	"contain-intrinsic-width":         {"contain-intrinsic-width"},
	"container":                       {"container-name", "container-type"},
	"container-name":                  {"container-name"},
	"container-type":                  {"container-type"},
	"content":                         {"content"},
	"content-visibility":              {"content-visibility"},
	"counter-increment":               {"counter-increment"},
	"counter-reset":                   {"counter-reset"},
	"counter-set":                     {"counter-set"},
	"cursor":                          {"cursor"},
	"direction":                       {"direction"},
	"display":                         {"display"},
	"empty-cells":                     {"empty-cells"},
	"filter":                          {"filter"},
	"flex":                            {"flex-basis", "flex-grow", "flex-shrink"},
	"flex-basis":                      {"flex-basis"},
	"flex-direction":                  {"flex-direction"},
	"flex-flow":                       {"flex-direction", "flex-wrap"},
	"flex-grow":                       {"flex-grow"},
	"flex-shrink":                     {"flex-shrink"},
	"flex-wrap":                       {"flex-wrap"},
	"float":                           {"float"},
	"font":                            {"font-family", "font-size", "font-stretch", "font-style", "font-variant-alternates", "font-variant-caps", "font-variant-east-asian", "font-variant-emoji", "font-variant-ligatures", "font-variant-numeric", "font-variant-position", "font-weight", "line-height"},
	"font-family":                     {"font-family"},
	"font-feature-settings":           {"font-feature-settings"},
	"font-kerning":                    {"font-kerning"},
	"font-language-override":          {"font-language-override"},
	"font-optical-sizing":             {"font-optical-sizing"},
	"font-palette":                    {"font-palette"},
	"font-size":                       {"font-size"},
	"font-size-adjust":                {"font-size-adjust"},
	"font-smooth":                     {"font-smooth"},
	"font-stretch":                    {"font-stretch"},
	"font-style":                      {"font-style"},
	"font-synthesis":                  {"font-synthesis-position", "font-synthesis-small-caps", "font-synthesis-style", "font-synthesis-weight"},
	"font-synthesis-position":         {"font-synthesis-position"},
	"font-synthesis-small-caps":       {"font-synthesis-small-caps"},
	"font-synthesis-style":            {"font-synthesis-style"},
	"font-synthesis-weight":           {"font-synthesis-weight"},
	"font-variant":                    {"font-variant-alternates", "font-variant-caps", "font-variant-east-asian", "font-variant-emoji", "font-variant-ligatures", "font-variant-numeric", "font-variant-position"},
	"font-variant-alternates":         {"font-variant-alternates"},
	"font-variant-caps":               {"font-variant-caps"},
	"font-variant-east-asian":         {"font-variant-east-asian"},
	"font-variant-emoji":              {"font-variant-emoji"},
	"font-variant-ligatures":          {"font-variant-ligatures"},
	"font-variant-numeric":            {"font-variant-numeric"},
	"font-variant-position":           {"font-variant-position"},
	"font-variation-settings":         {"font-variation-settings"},
	"font-weight":                     {"font-weight"},
	"forced-color-adjust":             {"forced-color-adjust"},
	"gap":                             {"column-gap", "row-gap"},
	"grid":                            {"grid-auto-columns", "grid-auto-flow", "grid-auto-rows", "grid-template-areas", "grid-template-columns", "grid-template-rows"},
	"grid-area":                       {"grid-column-end", "grid-column-start", "grid-row-end", "grid-row-start"},
	"grid-auto-columns":               {"grid-auto-columns"},
	"grid-auto-flow":                  {"grid-auto-flow"},
	"grid-auto-rows":                  {"grid-auto-rows"},
	"grid-column":                     {"grid-column-end", "grid-column-start"},
	"grid-column-end":                 {"grid-column-end"},
	"grid-column-gap":                 {"grid-column-gap"},
	"grid-column-start":               {"grid-column-start"},
	"grid-gap":                        {"grid-column-gap", "grid-row-gap"},
	"grid-row":                        {"grid-row-end", "grid-row-start"},
	"grid-row-end":                    {"grid-row-end"},
	"grid-row-gap":                    {"grid-row-gap"},
	"grid-row-start":                  {"grid-row-start"},
	"grid-template":                   {"grid-template-areas", "grid-template-columns", "grid-template-rows"},
	"grid-template-areas":             {"grid-template-areas"},
	"grid-template-columns":           {"grid-template-columns"},
	"grid-template-rows":              {"grid-template-rows"},
	"hanging-punctuation":             {"hanging-punctuation"},
	"height":                          {"height"},
	"hyphenate-character":             {"hyphenate-character"},
	"hyphenate-limit-chars":           {"hyphenate-limit-chars"},
	"hyphens":                         {"hyphens"},
	"image-orientation":               {"image-orientation"},
	"image-rendering":                 {"image-rendering"},
	"image-resolution":                {"image-resolution"},
	"ime-mode":                        {"ime-mode"},
	"initial-letter":                  {"initial-letter"},
	"initial-letter-align":            {"initial-letter-align"},
	"inline-size":                     {"inline-size"},
	"input-security":                  {"input-security"},
	"inset":                           {"bottom", "left", "right", "top"},
	"inset-block":                     {"inset-block-end", "inset-block-start"},
	"inset-block-end":                 {"inset-block-end"},
	"inset-block-start":               {"inset-block-start"},
	"inset-inline":                    {"inset-inline-end", "inset-inline-start"},
	"inset-inline-end":                {"inset-inline-end"},
	"inset-inline-start":              {"inset-inline-start"},
	"isolation":                       {"isolation"},
	"justify-content":                 {"justify-content"},
	"justify-items":                   {"justify-items"},
	"justify-self":                    {"justify-self"},
	"justify-tracks":                  {"justify-tracks"},
	"left":                            {"left"},
	"letter-spacing":                  {"letter-spacing"},
	"line-break":                      {"line-break"},
	"line-clamp":                      {"line-clamp"},
	"line-height":                     {"line-height"},
	"line-height-step":                {"line-height-step"},
	"list-style":                      {"list-style-image", "list-style-position", "list-style-type"},
	"list-style-image":                {"list-style-image"},
	"list-style-position":             {"list-style-position"},
	"list-style-type":                 {"list-style-type"},
	"margin":                          {"margin-bottom", "margin-left", "margin-right", "margin-top"},
	"margin-block":                    {"margin-block-end", "margin-block-start"},
	"margin-block-end":                {"margin-block-end"},
	"margin-block-start":              {"margin-block-start"},
	"margin-bottom":                   {"margin-bottom"},
	"margin-inline":                   {"margin-inline-end", "margin-inline-start"},
	"margin-inline-end":               {"margin-inline-end"},
	"margin-inline-start":             {"margin-inline-start"},
	"margin-left":                     {"margin-left"},
	"margin-right":                    {"margin-right"},
	"margin-top":                      {"margin-top"},
	"margin-trim":                     {"margin-trim"},
	"mask":                            {"mask-clip", "mask-composite", "mask-image", "mask-mode", "mask-origin", "mask-position", "mask-repeat", "mask-size"},
	"mask-border":                     {"mask-border-mode", "mask-border-outset", "mask-border-repeat", "mask-border-slice", "mask-border-source", "mask-border-width"},
	"mask-border-mode":                {"mask-border-mode"},
	"mask-border-outset":              {"mask-border-outset"},
	"mask-border-repeat":              {"mask-border-repeat"},
	"mask-border-slice":               {"mask-border-slice"},
	"mask-border-source":              {"mask-border-source"},
	"mask-border-width":               {"mask-border-width"},
	"mask-clip":                       {"mask-clip"},
	"mask-composite":                  {"mask-composite"},
	"mask-image":                      {"mask-image"},
	"mask-mode":                       {"mask-mode"},
	"mask-origin":                     {"mask-origin"},
	"mask-position":                   {"mask-position"},
	"mask-repeat":                     {"mask-repeat"},
	"mask-size":                       {"mask-size"},
	"mask-type":                       {"mask-type"},
	"masonry-auto-flow":               {"masonry-auto-flow"},
	"math-depth":                      {"math-depth"},
	"math-shift":                      {"math-shift"},
	"math-style":                      {"math-style"},
	"max-block-size":                  {"max-block-size"},
	"max-height":                      {"max-height"},
	"max-inline-size":                 {"max-inline-size"},
	"max-lines":                       {"max-lines"},
	"max-width":                       {"max-width"},
	"min-block-size":                  {"min-block-size"},
	"min-height":                      {"min-height"},
	"min-inline-size":                 {"min-inline-size"},
	"min-width":                       {"min-width"},
	"mix-blend-mode":                  {"mix-blend-mode"},
	"object-fit":                      {"object-fit"},
	"object-position":                 {"object-position"},
	"offset":                          {"offset-anchor", "offset-distance", "offset-path", "offset-position", "offset-rotate"},
	"offset-anchor":                   {"offset-anchor"},
	"offset-distance":                 {"offset-distance"},
	"offset-path":                     {"offset-path"},
	"offset-position":                 {"offset-position"},
	"offset-rotate":                   {"offset-rotate"},
	"opacity":                         {"opacity"},
	"order":                           {"order"},
	"orphans":                         {"orphans"},
	"outline":                         {"outline-color", "outline-style", "outline-width"},
	"outline-color":                   {"outline-color"},
	"outline-offset":                  {"outline-offset"},
	"outline-style":                   {"outline-style"},
	"outline-width":                   {"outline-width"},
	"overflow":                        {"overflow-x", "overflow-y"},
	"overflow-anchor":                 {"overflow-anchor"},
	"overflow-block":                  {"overflow-block"},
	"overflow-clip-box":               {"overflow-clip-box"},
	"overflow-clip-margin":            {"overflow-clip-margin"},
	"overflow-inline":                 {"overflow-inline"},
	"overflow-wrap":                   {"overflow-wrap"},
	"overflow-x":                      {"overflow-x"},
	"overflow-y":                      {"overflow-y"},
	"overlay":                         {"overlay"},
	"overscroll-behavior":             {"overscroll-behavior-x", "overscroll-behavior-y"},
	"overscroll-behavior-block":       {"overscroll-behavior-block"},
	"overscroll-behavior-inline":      {"overscroll-behavior-inline"},
	"overscroll-behavior-x":           {"overscroll-behavior-x"},
	"overscroll-behavior-y":           {"overscroll-behavior-y"},
	"padding":                         {"padding-bottom", "padding-left", "padding-right", "padding-top"},
	"padding-block":                   {"padding-block-end", "padding-block-start"},
	"padding-block-end":               {"padding-block-end"},
	"padding-block-start":             {"padding-block-start"},
	"padding-bottom":                  {"padding-bottom"},
	"padding-inline":                  {"padding-inline-end", "padding-inline-start"},
	"padding-inline-end":              {"padding-inline-end"},
	"padding-inline-start":            {"padding-inline-start"},
	"padding-left":                    {"padding-left"},
	"padding-right":                   {"padding-right"},
	"padding-top":                     {"padding-top"},
	"page":                            {"page"},
	"page-break-after":                {"page-break-after"},
	"page-break-before":               {"page-break-before"},
	"page-break-inside":               {"page-break-inside"},
	"paint-order":                     {"paint-order"},
	"perspective":                     {"perspective"},
	"perspective-origin":              {"perspective-origin"},
	"place-content":                   {"align-content", "justify-content"},
	"place-items":                     {"align-items", "justify-items"},
	"place-self":                      {"align-self", "justify-self"},
	"pointer-events":                  {"pointer-events"},
	"position":                        {"position"},
	"print-color-adjust":              {"print-color-adjust"},
	"quotes":                          {"quotes"},
	"resize":                          {"resize"},
	"right":                           {"right"},
	"rotate":                          {"rotate"},
	"row-gap":                         {"row-gap"},
	"ruby-align":                      {"ruby-align"},
	"ruby-merge":                      {"ruby-merge"},
	"ruby-position":                   {"ruby-position"},
	"scale":                           {"scale"},
	"scroll-behavior":                 {"scroll-behavior"},
	"scroll-margin":                   {"scroll-margin-bottom", "scroll-margin-left", "scroll-margin-right", "scroll-margin-top"},
	"scroll-margin-block":             {"scroll-margin-block-end", "scroll-margin-block-start"},
	"scroll-margin-block-end":         {"scroll-margin-block-end"},
	"scroll-margin-block-start":       {"scroll-margin-block-start"},
	"scroll-margin-bottom":            {"scroll-margin-bottom"},
	"scroll-margin-inline":            {"scroll-margin-inline-end", "scroll-margin-inline-start"},
	"scroll-margin-inline-end":        {"scroll-margin-inline-end"},
	"scroll-margin-inline-start":      {"scroll-margin-inline-start"},
	"scroll-margin-left":              {"scroll-margin-left"},
	"scroll-margin-right":             {"scroll-margin-right"},
	"scroll-margin-top":               {"scroll-margin-top"},
	"scroll-padding":                  {"scroll-padding-bottom", "scroll-padding-left", "scroll-padding-right", "scroll-padding-top"},
	"scroll-padding-block":            {"scroll-padding-block-end", "scroll-padding-block-start"},
	"scroll-padding-block-end":        {"scroll-padding-block-end"},
	"scroll-padding-block-start":      {"scroll-padding-block-start"},
	"scroll-padding-bottom":           {"scroll-padding-bottom"},
	"scroll-padding-inline":           {"scroll-padding-inline-end", "scroll-padding-inline-start"},
	"scroll-padding-inline-end":       {"scroll-padding-inline-end"},
	"scroll-padding-inline-start":     {"scroll-padding-inline-start"},
	"scroll-padding-left":             {"scroll-padding-left"},
	"scroll-padding-right":            {"scroll-padding-right"},
	"scroll-padding-top":              {"scroll-padding-top"},
	"scroll-snap-align":               {"scroll-snap-align"},
	"scroll-snap-coordinate":          {"scroll-snap-coordinate"},
	"scroll-snap-destination":         {"scroll-snap-destination"},
	"scroll-snap-points-x":            {"scroll-snap-points-x"},
	"scroll-snap-points-y":            {"scroll-snap-points-y"},
	"scroll-snap-stop":                {"scroll-snap-stop"},
	"scroll-snap-type":                {"scroll-snap-type"},
	"scroll-snap-type-x":              {"scroll-snap-type-x"},
	"scroll-snap-type-y":              {"scroll-snap-type-y"},
	"scroll-timeline":                 {"scroll-timeline-axis", "scroll-timeline-name"},
	"scroll-timeline-axis":            {"scroll-timeline-axis"},
	"scroll-timeline-name":            {"scroll-timeline-name"},
	"scrollbar-color":                 {"scrollbar-color"},
	"scrollbar-gutter":                {"scrollbar-gutter"},
	"scrollbar-width":                 {"scrollbar-width"},
	"shape-image-threshold":           {"shape-image-threshold"},
	"shape-margin":                    {"shape-margin"},
	"shape-outside":                   {"shape-outside"},
	"tab-size":                        {"tab-size"},
	"table-layout":                    {"table-layout"},
	"text-align":                      {"text-align"},
	"text-align-last":                 {"text-align-last"},
	"text-combine-upright":            {"text-combine-upright"},
	"text-decoration":                 {"text-decoration-color", "text-decoration-line", "text-decoration-style", "text-decoration-thickness"},
	"text-decoration-color":           {"text-decoration-color"},
	"text-decoration-line":            {"text-decoration-line"},
	"text-decoration-skip":            {"text-decoration-skip"},
	"text-decoration-skip-ink":        {"text-decoration-skip-ink"},
	"text-decoration-style":           {"text-decoration-style"},
	"text-decoration-thickness":       {"text-decoration-thickness"},
	"text-emphasis":                   {"text-emphasis-color", "text-emphasis-style"},
	"text-emphasis-color":             {"text-emphasis-color"},
	"text-emphasis-position":          {"text-emphasis-position"},
	"text-emphasis-style":             {"text-emphasis-style"},
	"text-indent":                     {"text-indent"},
	"text-justify":                    {"text-justify"},
	"text-orientation":                {"text-orientation"},
	"text-overflow":                   {"text-overflow"},
	"text-rendering":                  {"text-rendering"},
	"text-shadow":                     {"text-shadow"},
	"text-size-adjust":                {"text-size-adjust"},
	"text-transform":                  {"text-transform"},
	"text-underline-offset":           {"text-underline-offset"},
	"text-underline-position":         {"text-underline-position"},
	"text-wrap":                       {"text-wrap"},
	"timeline-scope":                  {"timeline-scope"},
	"top":                             {"top"},
	"touch-action":                    {"touch-action"},
	"transform":                       {"transform"},
	"transform-box":                   {"transform-box"},
	"transform-origin":                {"transform-origin"},
	"transform-style":                 {"transform-style"},
	"transition":                      {"transition-behavior", "transition-delay", "transition-duration", "transition-property", "transition-timing-function"},
	"transition-behavior":             {"transition-behavior"},
	"transition-delay":                {"transition-delay"},
	"transition-duration":             {"transition-duration"},
	"transition-property":             {"transition-property"},
	"transition-timing-function":      {"transition-timing-function"},
	"translate":                       {"translate"},
	"unicode-bidi":                    {"unicode-bidi"},
	"user-select":                     {"user-select"},
	"vertical-align":                  {"vertical-align"},
	"view-timeline":                   {"view-timeline-axis", "view-timeline-name"},
	"view-timeline-axis":              {"view-timeline-axis"},
	"view-timeline-inset":             {"view-timeline-inset"},
	"view-timeline-name":              {"view-timeline-name"},
	"view-transition-name":            {"view-transition-name"},
	"visibility":                      {"visibility"},
	"white-space":                     {"white-space"},
	"white-space-collapse":            {"white-space-collapse"},
	"widows":                          {"widows"},
	"width":                           {"width"},
	"will-change":                     {"will-change"},
	"word-break":                      {"word-break"},
	"word-spacing":                    {"word-spacing"},
	"word-wrap":                       {"word-wrap"},
	"writing-mode":                    {"writing-mode"},
	"z-index":                         {"z-index"},
	"zoom":                            {"zoom"},
}
