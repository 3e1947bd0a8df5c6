T_IN = "every combination of argument values, not only the handful of literals in the test file"

# ---- orders ----
prop("O01", "An order request is accepted exactly when it is well formed",
     "Creating an order request fails with an invalid-argument error if the pair has no base symbol, the action or the order type is empty, a limit order has no price, or both quantity and total are zero; in every other case it succeeds. An accepted request carries the pair, action, type, quantity, price and total it was given, with take profit and stop loss at zero; a rejected one returns no request.",
     "all pairs, action and type strings, quantities, prices and totals",
     "The tests create a few requests with fixed literals; acceptance is a condition over six independent arguments.",
     ["market/order_request.go"], ["constructor of order requests"], AI, BASE)
prop("O02", "Completing an order request derives total or quantity from the price",
     "Completing a request at a current price requires exactly one of quantity and total to be set and, when the quantity is derived, a non-zero price (the current price for market orders, the request's own price otherwise); anything else is an invalid-argument error. If the quantity is set the total becomes quantity times price, if the total is set the quantity becomes total divided by price. All other fields are kept and the original request is not modified.",
     "all requests and current prices",
     "Tests use two or three literal prices; the zero-price and both-set combinations and the other fields are not covered.",
     ["market/order_request.go"], ["field calculation of order requests"], AI, BASE)
prop("O03", "An order counts as open unless it is fulfilled or canceled",
     "An order is reported open exactly when its status is neither fulfilled nor canceled, so unfilled, partially filled and unknown states are open. The stored status values are \"fulfilled\", \"partial_fill\", \"unfilled\" and \"canceled\", and asking does not change the order.",
     "all status strings", "No test calls it with every status, and the status is an open string type.",
     ["market/order.go"], ["open test", "status constants"], AI, BASE)

# ---- trades and positions ----
prop("P01", "A trade records its arguments and the fee implied by its cost",
     "A new trade carries exactly the id, time, action, order type, pair, price, quantity and cost it was given. Its fee is cost minus price times quantity for a buy and price times quantity minus cost for anything else.",
     "all argument values", "The only test compares one literal trade.",
     ["market/trade.go"], ["trade constructor"], AI, BASE)
prop("P02", "Opening a position takes over the opening trade",
     "A position opened from a trade is long for a buy and short for a sell (and neither for any other action), is open, and takes pair, price, quantity and time from the trade. Its trade list holds just that trade's id, it has a newly generated id, and profit, close price, close time, take profit and stop loss are empty.",
     "all trades", "The tests look at one buy and one sell with literal numbers and only some of the fields.",
     ["market/position.go"], ["position constructor"], AI, BASE)
prop("P03", "Increasing a position averages the price by quantity",
     "A trade in the direction of an open position on the same pair is accepted; the quantity becomes the sum of both quantities. The open price becomes the quantity-weighted average of the position's and the trade's price. Every other field except the trade list is unchanged.",
     "all positions and trades, long and short", "Tests check a few literal averages; the law is over all reals and both directions.",
     ["market/position.go"], ["increase branch of position modification"], AI, BASE + " The combined quantity is not zero.")
prop("P04", "Reducing a position closes it exactly when its quantity is used up",
     "An opposite trade larger than the position by more than 0.0001 is rejected as invalid. One that covers the quantity closes the position, recording the trade's price and time and keeping open price and quantity. A smaller one leaves the position open with the remaining quantity, and the open price such that remaining value equals old value minus the value of the trade.",
     "all positions and trades, long and short", "Tests use a few literal quantities; the boundaries (exactly equal, within tolerance, just beyond) are not enumerated.",
     ["market/position.go"], ["decrease branch of position modification"], AI, BASE)
prop("P05", "Profit is the signed price difference times the quantity",
     "When a position is closed its profit is (close price - open price) times quantity for a long and the negation for a short; profit does not change while the position stays open. The unrealised profit at a price follows the same formula and does not modify the position.",
     "all positions, trades and prices", "Tests compare literal profits for a few positions.",
     ["market/position.go"], ["closing a position", "unrealised profit"], AI, BASE)
prop("P06", "A position change is all or nothing and records the trade once",
     "If modifying a position fails, neither the position nor its trade list nor the trade has changed. If it succeeds, the trade's id is appended to the end of the trade list exactly once and the earlier entries are kept.",
     "all positions and trades, every rejecting and accepting path", "Tests check the error, not that every field survived it; they do not compare the whole trade list.",
     ["market/position.go"], ["position modification", "trade list"], AI, BASE)
prop("P07", "Only trades that fit an open position may modify it",
     "A trade on a different pair, or one whose action is neither buy nor sell, is rejected as invalid; any trade on a closed position is rejected as a conflict. Pairs are compared in full (names and symbols of base and quote).",
     "all positions and trades", "Tests have one literal mismatch; pair equality has six string components and the action is an open string type.",
     ["market/position.go"], ["position modification"], AI, BASE)

# ---- assets ----
prop("A01", "Asset lookups return the asset asked for or a not-found error",
     "Looking up a crypto, forex or stock symbol returns an asset with exactly that symbol and a non-empty name, no two symbols of one lookup sharing a name, or an empty asset with a not-found error for an unknown symbol. Creating an asset directly keeps the symbol and name and rejects an empty one as invalid.",
     "all symbol strings, all table entries", "Tests look up a few symbols; the tables have many entries and the symbol is an open string type.",
     ["market/asset.go", "market/asset_helpers.go"], ["asset constructor", "lookup switches"], AI, BASE)
prop("A03", "A pair's symbol joins base and quote with the separator",
     "The symbol of a pair is its base symbol, the separator and its quote symbol, in this order; for a pair without a quote symbol it is the base symbol alone. Making a pair keeps base and quote as given.",
     "all pairs and separators", "The tests use literal pairs.",
     ["market/pair.go"], ["pair symbol", "pair constructor"], AI, BASE)

# ---- models ----
prop("M01", "Updating a stored model copies it completely or changes nothing",
     "Updating an order, position, trade or annotation with a non-nil pointer to the same kind of model makes every field equal to the given one's. Anything else (another type, a value, nil, a nil pointer) is rejected as invalid and leaves the model unchanged.",
     "all models and all dynamic types of the argument", "No test updates a model; dynamic types cannot be enumerated by tests.",
     ["market/order.go", "market/position.go", "market/trade.go", "strategy/annotation.go"], ["model update methods"], AI, BASE)
prop("M02", "Stored models identify themselves consistently",
     "Orders, positions, trades and annotations are stored under the distinct schema names \"orders\", \"positions\", \"trades\" and \"annotations\" with primary key \"id\". The identifier they report is the value of the field encoded under the primary key.",
     "all model instances", "No test covers the storage interface.",
     ["market/order.go", "market/position.go", "market/trade.go", "strategy/annotation.go"], ["schema and id methods"],
     "abstract interpretation of the storage methods joined with a type query over struct tags", BASE)
prop("M03", "Exchanged records keep every field under its own JSON name",
     "Every exported field of the exchanged records (assets, pairs, candles, tickers, balances, order books, orders, trades, positions, annotations and strategy actions) is encoded in JSON under the snake_case form of its name. No two fields of a record share a name, none is skipped or conditionally omitted, and no custom encoding replaces the default.",
     "all fields of all records", "A test would have to enumerate every record and field; duplicate names silently drop both fields.",
     ["market/asset.go", "market/pair.go", "market/candle.go", "market/ticker.go", "market/balances.go", "market/orderbook.go", "market/orderbook_types.go", "market/order.go", "market/trade.go", "market/position.go", "strategy/annotation.go", "strategy/order_actions.go", "strategy/position_actions.go"],
     ["struct tags"], "query over the type-checked struct definitions and method sets", "Decides the declared encoding of every field; encoding/json itself is trusted.", over=("programs",))

# ---- strategy ----
prop("S01", "Collecting actions stores each one once under a fresh id",
     "Adding order or position actions stores every given action exactly once, unchanged except for a newly generated identifier, in the collection of its kind under that identifier, creating the collection if needed and keeping what it already held. Adding annotations appends copies of them unchanged in order. No other collection and no argument is modified.",
     "all action lists of any length and all earlier contents", "No test covers the collectors; list lengths and earlier contents are unbounded.",
     ["strategy/actions.go", "strategy/order_actions.go", "strategy/position_actions.go"], ["action collectors"],
     "effect analysis of map writes with a counting loop invariant over the SSA form", BASE, over=("inputs", "histories"))
prop("S02", "A new annotation carries its arguments and a fresh id",
     "A new annotation has the given time, price, label and tooltip, a newly generated id, and no creation time or execution id.",
     "all argument values", "No test creates an annotation.", ["strategy/annotation.go"], ["annotation constructor"], AI, BASE)
prop("S03", "Tick times are the candle's instant in the chosen time zone",
     "The local time of a tick is the instant of its candle (seconds since the epoch) in the local zone; the location time is the same instant in the named zone. An unknown zone name is an error, a known one never is.",
     "all ticks with a candle, all zone names", "No test covers it; zones and times are unbounded.", ["strategy/strategy.go"], ["tick time conversions"], AI, BASE + " The tick carries a candle.")

# ---- indicators ----
prop("I01", "Indicators accept exactly the windows they can compute",
     "The simple, exponential and smoothed moving averages fail with an invalid-argument error and no values if the candles are missing, fewer than the period, or the period is below one; the relative strength index also if there are fewer than 14 candles or not more candles than the period. In every other case they succeed, and they never modify the candles.",
     "all candle lists and periods", "Tests try a few lengths; the conditions relate two unbounded integers.",
     ["indicators/ma.go", "indicators/rsi.go"], ["argument checks"], AI, BASE)
prop("I02", "The moving average is the mean of each window of closes",
     "For n candles and period p the simple moving average has n-p+1 values, and value k is the sum of the closes of candles k to k+p-1 divided by p.",
     "all candle lists, periods and output indices", "The test compares one data set with recorded values.",
     ["indicators/ma.go"], ["moving average"], AI + "; prefix-sum terms", BASE)
prop("I03", "The exponential average follows its recurrence over every close",
     "For n candles and period p the exponential moving average has n-p values. Value k is close k+p times 2/(p+1) plus the preceding value times 1-2/(p+1), where the value preceding the first is the mean of the first p closes.",
     "all candle lists, periods and output indices", "The test compares one data set with recorded values.",
     ["indicators/ma.go"], ["exponential moving average"], AI + "; recurrence facts as loop invariants", BASE)
prop("I04", "The smoothed average follows its recurrence over every close",
     "For n candles and period p the smoothed moving average has n-p+1 values. The first is the mean of the first p closes, and value k is the preceding value times p-1 plus close k+p-1, divided by p.",
     "all candle lists, periods and output indices", "The test compares one data set with recorded values.",
     ["indicators/ma.go"], ["smoothed moving average"], AI + "; recurrence facts as loop invariants", BASE)
prop("I05", "The strength index compares gains and losses of each window",
     "For n candles and period p the relative strength index has n-p values. Value k is 100 - 100/(1+g/l) in single precision, where g and l are the sums of the rises and of the falls between the p+1 consecutive closes k to k+p. It is 100 if there are rises but no falls, and 50 if the window is flat.",
     "all candle lists, periods and output indices", "The test compares one data set with recorded values; flat and loss-free windows do not occur in it.",
     ["indicators/rsi.go"], ["relative strength index"], AI + "; prefix sums of positive parts", BASE)
prop("I06", "Weighted volatility folds every candle's range in order",
     "The exponentially weighted volatility starts at 0 and, for every candle in order, becomes beta times itself plus (1-beta) times the candle's high minus low; the final value is returned (0 for no candles).",
     "all candle lists and betas", "The test compares one data set with one recorded value.",
     ["indicators/ewv.go"], ["volatility fold"], AI + "; fold terms", BASE)
prop("K05", "The minimum interval is the smallest gap between candles",
     "The minimum interval of a candle list is the smallest absolute time difference between adjacent candles in whole minutes, rounded down, for any number of candles. It is 0 for fewer than two candles, and the candles are not modified.",
     "all candle lists", "The tests use two data sets.",
     ["market/candle.go"], ["minimum interval"], AI + "; min-over-range terms", BASE)

# ---- order books ----
OB = BASE + " Updates are analysed from any book with at most the maximum depth of sorted rows, which construction and updates are shown to establish."
prop("B01", "The sides of an order book stay sorted by price",
     "After construction and after every update the asks are in ascending and the bids in descending order of price, for any number of rows. If no price occurred twice before an update, none does afterwards.",
     "all lists of rows, depths and update sequences", "Tests apply a few updates to small literal books; the order must survive any history.",
     ["market/orderbook.go"], ["construction and update of order books"], AI + "; quantified order facts over array segments", OB, over=("inputs", "histories"))
prop("B02", "A book keeps the best rows up to its maximum depth",
     "A new book holds, per side, the best of the given rows up to the maximum depth: the leading rows of the sorted input, all of them if there are not more, each with its own price and volume; a negative maximum depth counts as zero. Updates never change the maximum depth and never leave more rows than it allows.",
     "all lists of rows and depths", "Tests build books that are smaller than or equal to one fixed depth.",
     ["market/orderbook.go"], ["sorting and truncation"], AI + "; permutation provenance of sorted columns", OB, over=("inputs", "histories"))
prop("B03", "An update sets, inserts or removes exactly one price level",
     "An update with a non-zero volume gives the level at its price that volume: an existing level is replaced in place, a new one is inserted where its price belongs, pushing out the worst row only if the depth is exceeded. A zero volume removes the level at that price if there is one. All other rows of the side keep price, volume and order; any side other than ask or bid is an invalid-argument error that changes nothing.",
     "all books without duplicate prices, updates and row indices", "Tests check a few literal updates; the position of the level and the number of rows are unbounded.",
     ["market/orderbook.go"], ["level update"], AI + "; positional specification over array segments", OB, over=("inputs", "histories"))
prop("B04", "A non-zero update evicts exactly the crossed opposite rows",
     "Setting an ask removes the bids priced at or above it and setting a bid removes the asks priced at or below it; every other row of the opposite side keeps price, volume and order. Removing a level evicts nothing, and a book whose best bid is below its best ask never becomes locked or crossed by an update.",
     "all sorted books and updates", "Tests cross one literal book; the number of evicted rows is unbounded.",
     ["market/orderbook.go"], ["eviction of crossed rows"], AI, OB, over=("inputs", "histories"))
prop("B05", "Accumulated volumes are running totals from the best price",
     "After construction and after every update, the accumulated volume of the best row of each side is its own volume and that of every other row is its volume plus the accumulated volume of the row before it.",
     "all books, updates and row indices", "Tests compare a few literal totals; stale totals after an update are easy to miss.",
     ["market/orderbook.go"], ["volume accumulation"], AI + "; recurrence facts as loop invariants", OB, over=("inputs", "histories"))
prop("B06", "A depth query answers with the volume up to the given price",
     "For a price within the range of the asks the depth is the accumulated volume of the last ask not above the price; otherwise, within the range of the bids, that of the last bid not below it. A price of zero or less is an invalid-argument error, any other price is not found, and the book is not modified.",
     "all sorted books and prices", "Tests query a few prices of one literal book.",
     ["market/orderbook.go"], ["depth query"], AI, BASE)
prop("B07", "The overlap of two books is priced from the matching rows",
     "Two books overlap if the best ask of one is below the best bid of the other (the first book's asks take precedence); otherwise the result is -1 with a not-found error. The overlapping asks are those up to the best bid, the overlapping bids those down to the best ask; the bids are consumed from the lowest upwards until the volume of the overlapping asks is reached, the last one partly. The result is the absolute difference between the value of the overlapping asks and the value of the consumed bids, and neither book is modified.",
     "all pairs of books", "Tests compute a few literal overlaps; which rows take part depends on all prices and volumes.",
     ["market/orderbook.go"], ["overlap computation"], AI + "; prefix-sum terms", BASE)

# ---- candles ----
CB = BASE + " Times are analysed as unbounded integers; the minute of a time is the documented UTC minute."
prop("K01", "A resampled candle summarises the run of candles it replaces",
     "Each candle of a changed interval stands for a non-empty run of given candles: it has the time and open of the first, the close of the last, the highest high and the lowest low of the run. Its volume is the sum of the run's volumes rounded to five decimals.",
     "all candle lists and target intervals, every output candle", "Tests compare a few recorded data sets; the runs are of arbitrary length and content.",
     ["market/candle.go"], ["interval change", "candle compression"], AI + "; max/min-over-range and prefix-sum terms, loop invariants over ghost positions", CB)
prop("K02", "Resampling uses every candle from the first aligned one exactly once",
     "The runs behind the resampled candles are consecutive and in order: the first begins at the first candle aligned with the target interval, each next one where the previous ended, and the last ends with the last candle. Only candles before the first aligned one are left out.",
     "all candle lists and target intervals", "Tests compare sizes and a few values of recorded data sets; a dropped or repeated candle inside a long list need not show.",
     ["market/candle.go"], ["interval change", "search of the first aligned candle"], AI + "; ghost position carried through the loop invariant", CB)
prop("K03", "Resampled candles are cut at the interval boundaries",
     "The first aligned candle is the first one whose minute of the hour, in UTC and independent of the local time zone, is a multiple of the target interval (for more than an hour, of its minutes beyond whole hours, or on the full hour if there are none). Counted from that candle's time, all candles of one run lie in the same interval of the target length, and a run ends only at the end of the list or where the next candle lies in a different interval, also when candles are missing.",
     "all candle lists, including gaps and irregular times, and all target intervals", "Tests use gapless recorded data and one time zone.",
     ["market/candle.go"], ["interval change", "search of the first aligned candle"], AI + "; quantified facts since the last assignment of the run start", CB)
prop("K04", "Only intervals that fit the candles are accepted",
     "Fewer than two candles are returned as they are. Otherwise an interval below one minute is an invalid-argument error; a spacing of the first two candles below a minute, a one-minute target for candles not one minute apart, or a target that is not a multiple of the spacing is a conflict; and candles of which none is aligned with the interval are an invalid-argument error. Every other call succeeds with at least one candle, an error comes without candles, and the given candles are never modified.",
     "all candle lists and target intervals", "Tests have a few literal rejections; the conditions are arithmetic over the first two times and the interval.",
     ["market/candle.go"], ["interval change", "argument checks"], AI, CB)
prop("I07", "Williams fractals are exactly the confirmed local extremes",
     "A candle with at least two candles on each side is an up fractal exactly when the highs of the two candles before it are lower and, going right, two lower highs come before any higher one (equal highs are skipped); down fractals are the mirror image with lows. Fractals are reported once each, in order of the candles and up before down, with the candle's time and its high or low as price. Fewer than five candles have no fractals.",
     "all candle lists, every candle of the list", "Tests compare recorded fractals of one data set; runs of equal highs and confirmation at the very end of the list are rare there.",
     ["indicators/williams_fractals.go"], ["fractal search"], AI + "; counts as sums of indicators, per-iteration obligations on every loop back edge", BASE)
prop("A02", "Every entry of the pair table is the pair its key spells",
     "Each key of the table of known pairs is the base symbol followed by the quote symbol of the pair stored under it, both non-empty. The quote is a currency other entries also quote in or trade, so that a key is not split at the wrong place. Nothing in the library changes the table after it is set up.",
     "all entries of the table, all functions of the library", "The table has about two thousand entries and no test reads it.",
     ["market/pair_mappings.go"], ["pair table"], "constant propagation through the package initialiser (SSA), who-writes scan over all functions", BASE, over=("inputs", "programs"))

ALLM = ["market/asset.go", "market/asset_helpers.go", "market/balances.go", "market/candle.go", "market/candle_load.go", "market/order.go", "market/order_request.go", "market/orderbook.go", "market/orderbook_types.go", "market/pair.go", "market/pair_mappings.go", "market/position.go", "market/ticker.go", "market/trade.go"]
ALLI = ["indicators/ewv.go", "indicators/ma.go", "indicators/rsi.go", "indicators/williams_fractals.go"]
ALLS = ["strategy/actions.go", "strategy/annotation.go", "strategy/order_actions.go", "strategy/position_actions.go", "strategy/strategy.go"]
ALLU = ["utils/date.go"]

# ---- candle files ----
FB = BASE + " Text written with the default number format parses back to the same number; a line fits the scanner's buffer."
prop("K06", "Candles saved to a file are loaded back in full and in order",
     "Saving empties the named file and writes every candle once, in order, one line each, with all fields in full precision. Loading gives one candle per line of the named file, in order, with every field taken from its own place in the line: 64-bit times and prices. Saving and loading thus returns the same candles.",
     "all candle lists and file contents", "Tests load one recorded file and never compare a saved list with what is loaded.",
     ["market/candle_load.go"], ["saving candles", "loading candles"], "typestate with ghost counters in the abstract interpretation; matching of writer format and parser by field position", FB, over=("inputs", "histories"))
prop("K07", "Failed file operations are reported and files are always closed",
     "Saving and loading report success only if every create, open, write, flush, read, close-after-write and number conversion succeeded; a malformed line is an error. Every file that was opened is closed again on every path, and a failed load returns no candles.",
     "all inputs and all combinations of failing operations", "Tests run on a healthy file system; failing writes, closes and reads cannot be provoked there.",
     ["market/candle_load.go"], ["saving candles", "loading candles"], "typestate analysis of handles, scanner, writer and error results over all paths", FB, over=("inputs", "fault_sequences"))

# ---- whole interface ----
GB = BASE + " The candle of a tick is set and the maximum depth of a book is not negative."
prop("G01", "No operation of the library panics",
     "No exported function or method panics, whatever its arguments: empty or short lists, unknown names, malformed text, values at the limits. Receivers and pointers must not be nil, a book's maximum depth must not be negative and a tick must have its candle.",
     "all exported operations, all arguments", "Tests call the operations with well-formed literals; a panic needs one unusual length or value.",
     ALLM + ALLI + ALLS + ALLU, ["every index, slice, division, dereference and type assertion"], AI + "; one obligation per operation that can panic", GB)
prop("G02", "Every operation of the library terminates",
     "No exported function or method loops or recurses forever, whatever its arguments; loading a file ends when the file does.",
     "all exported operations, all arguments", "A test cannot tell a long run from an endless one, and tries only a few lists.",
     ALLM + ALLI + ALLS, ["every loop"], AI + "; ranking argument per loop (integer moving strictly to a bound fixed in the loop)", GB)
prop("G03", "Operations do not modify what they are given",
     "Lists, records and books passed to an operation have the same content afterwards; only the receiver of an update (a model update, a position change, a book update, an id generation, adding actions) may change. A new order book, position or completed request shares no memory with what it was made from, so later changes to it do not reach the caller's data.",
     "all exported operations, all arguments", "Tests look at results, not at whether the arguments survived; sharing shows only after later updates.",
     ALLM + ALLI + ALLS, ["memory reachable from arguments"], AI + "; frame conditions on entry memory, reachability of results", GB, over=("inputs", "histories"))
prop("G04", "Results depend only on the arguments, calls do not influence each other",
     "No operation keeps state between calls or shares it between concurrent calls: package-level tables are never modified. Apart from generated ids, the time stamp of a new book, time zones, candle files and printing to the console, nothing outside the arguments (clock, randomness, environment, iteration order of maps) influences a result.",
     "all sequences and interleavings of calls on separate data", "Tests run calls one at a time in one order; interference and order dependence need particular schedules.",
     ALLM + ALLI + ALLS + ALLU, ["package variables", "calls into libraries"], "effect analysis over the static call graph; who-writes analysis of package variables", "Covers effects of the library's own code; library packages are classified by their documentation.", over=("schedules", "histories", "programs"))

# ---- text ----
prop("T01", "Printed records show every value under its own label",
     "The text of a candle, ticker, balance, book row, asset, pair, order, order request, trade, position, close order, annotation or fractal lists its values in a fixed order, each directly after its own label. Prices and quantities have a fixed number of decimals per record, times are instants, a position's id is cut to 8 characters and a missing pair or asset is left empty.",
     "all records", "No test reads the texts; a swapped pair of values looks plausible.",
     ALLM + ["strategy/annotation.go", "indicators/williams_fractals.go"], ["text forms"], AI + "; string concatenation terms", BASE)
prop("T02", "A printed book lists asks from worst to best above the bids",
     "Printing an order book prints every ask once from the worst to the best and then every bid once from the best to the worst, each row as it is, and does not modify the book.",
     "all books", "No test captures the printed lines.",
     ["market/orderbook.go"], ["printing of order books"], AI + "; ghost line counter carried through loop invariants", BASE)
prop("T03", "Texts of lists show every element once and in order",
     "The text of an order book shows its time and, after their labels, all asks and all bids in their order; the text of an assets snapshot shows its time and all its assets. The text of a group of annotations is a heading followed by the text of every annotation, each once, in order and ending its line.",
     "all books, snapshots and groups of annotations of any length", "No test reads these texts; the number of elements is unbounded.",
     ["market/orderbook.go", "market/balances.go", "strategy/annotation.go"], ["text forms of lists"], AI + "; string concatenation terms with loop invariants", BASE)
prop("U01", "A raw date means midnight UTC of that day",
     "Converting a date of the form year-month-day gives the instant at 00:00:00 UTC of that day; anything that is not such a date is an error, and a valid date never is.",
     "all strings", "There is no test; validity is the whole set of dates.",
     ["utils/date.go"], ["date conversion"], AI, BASE)
prop("M04", "Enumerated values are stored under fixed distinct words",
     "Actions are \"buy\" and \"sell\"; order types \"market\", \"limit\", \"close_position\", \"take_profit\" and \"stop_loss\"; order states \"fulfilled\", \"partial_fill\", \"unfilled\" and \"canceled\"; positions \"long\" and \"short\"; fractals \"up\" and \"down\".",
     "all enumerated constants and all programs that exchange them", "Tests use the names, so a changed word goes unnoticed until stored data is read.",
     ["market/order.go", "market/position.go", "indicators/williams_fractals.go"], ["enumerated constants"], "constant evaluation on the type-checked program", "Decides the values of the constants only.", over=("programs",))

# ---- out of reach ----
prop("N01", "Indicator values are accurate to floating-point precision",
     "The moving averages, the strength index and the weighted volatility of up to a million candles differ from the exact mathematical value by at most a relative error of 1e-9.",
     "all candle lists of realistic prices", "Rounding errors accumulate with the length of the list; tests use short lists.",
     ALLI, ["accumulation loops"], "", "", na="The analysis treats floats as real numbers, so it sees no rounding at all; a bound on accumulated rounding needs a numerical error analysis of the loops with value ranges the source does not state.")
prop("N02", "Generated identifiers never repeat",
     "Identifiers given to positions, actions and annotations are unique across processes and machines.",
     "all histories of calls in all processes", "Uniqueness is over all runs of all processes.",
     ["strategy/order_actions.go", "strategy/position_actions.go", "strategy/annotation.go", "market/position.go"], ["identifier generation"], "", "", over=("histories",), na="Uniqueness is a property of the identifier library and of clocks and host ids at run time; the source here only shows that each identifier comes from a fresh call of it, which S01, S02 and P02 decide.")
