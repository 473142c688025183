"""writes /verif/properties.jsonl (kept as code because JSON lines are hard to edit)"""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'state': [{'name': n, 'meaning': m, 'where': w}
                              for n, m, w in state],
                    'observe_at': list(observe), 'hook_needed': None}})


IP = 'dcf/interpolation.py'
CV = 'dcf/curves/curve.py'
IR = 'dcf/curves/interestratecurve.py'
CC = 'dcf/curves/creditcurve.py'
VC = 'dcf/curves/volatilitycurve.py'
FX = 'dcf/curves/fx.py'
CF = 'dcf/cashflows/cashflow.py'
CO = 'dcf/cashflows/contingent.py'
PO = 'dcf/cashflows/payoffs.py'
PR = 'dcf/cashflows/products.py'
PX = 'dcf/pricer.py'
OP = 'dcf/models/optionpricing.py'

p('P01', 'Interpolations meet their points and follow their documented formula',
  'Every interpolation, for any points given in any order (as lists or as a dict), returns the given value at each given point and elsewhere exactly what its documented formula says for its interval (left/right/nearest/constant step functions, zero and default values off the grid, linear, log-linear, log-linear and log-constant by annual rate, continued beyond the first and last point as documented). '
  'A piecewise scheme uses its left part strictly below the first point, its middle part from first to last point and its right part strictly above, whether chosen by class, by registered name or by explicit triple, pair or single. '
  'Input that cannot be interpolated (non-positive values for log variants, unequal lengths or repeated points for schemes) is rejected with an exception.',
  ['inputs', 'configurations'],
  'all finite point sets (1 to ~12 points, unsorted, int or float, negative and zero abscissae), all interpolation classes and scheme triples, query points on, between, next to and outside of the points',
  'unit tests evaluate a few fixed grids such as [1,2,3]; off-by-one interval choice, tie handling, unsorted input and extrapolation side only show for other grids and query points',
  [IP], [('interval lookup by bisection', IP + ': left, right, nearest, linear'),
         ('log transforms', IP + ': loglinear, loglinearrate, logconstantrate'),
         ('left/mid/right dispatch', IP + ': interpolation_scheme')],
  ['interpolation objects called at points', 'Curve(domain, data, interpolation)(x)'])

p('P02', 'A curve behaves like a sorted mapping under any update history',
  'After any sequence of constructing, inserting and overwriting points (in any order, with spread and fixings set and removed in between) a curve reports its points sorted and without duplicates, iterates, contains and indexes exactly those points, and returns at each point the last value given to it. '
  'Its values everywhere equal those of a fresh curve built at once from the resulting points, so the order of updates never matters, an update which is refused (a value that is no number, or not positive where logarithms are taken) changes nothing, and neither a spread nor a fixing ever becomes part of the stored points. '
  'Reading a point which was never given raises KeyError, and points read earlier stay as they were read.',
  ['histories', 'inputs'],
  'histories of up to ~15 operations over plain, date and rate curves with float, int, date, datetime and BusinessDate points, implicit or explicit origin and several day counts',
  'tests construct curves once from sorted lists and rarely assign; the origin of a curve moves when an earlier point is inserted, which only histories reach',
  [CV, IP], [('re-sorting on update', CV + ': Curve._update, DateCurve._update'),
             ('stored values without spread and fixings', CV + ': Curve.__setitem__')],
  ['curve.domain', 'curve[x]', 'x in curve', 'iter(curve)', 'curve(x)'],
  [('domain', 'sorted points', CV), ('fixings/spread', 'overlays not part of the points', CV)])

p('P03', 'Curve arithmetic and shifting act pointwise',
  'Adding, subtracting, multiplying or dividing two curves gives, at every point of either curve, the sum, difference, product or quotient of the two curve values there, with the points of both curves as points of the result, which keeps the origin, day count and interpolation of the left curve; both operands stay as they were. '
  'Dividing by a curve that vanishes at a point raises ZeroDivisionError. '
  'Shifting a curve by a time difference moves its points and leaves the values attached to them unchanged.',
  ['inputs', 'configurations'],
  'pairs of plain, date, zero-rate and short-rate curves with different points and origins, all kinds of dates, values incl. zero and negative',
  'tests add a curve to itself or to one with the same points; different grids, origins and day counts are not covered and division was never reached',
  [CV], [('union of points', CV + ': __add__, __sub__, __mul__, __div__'),
         ('re-construction with own origin', CV + ': DateCurve arithmetic'),
         ('shifted', CV + ': Curve.shifted')], ['a+b', 'a-b', 'a*b', 'a/b', 'a.shifted(d)'])

p('P04', 'Time axis: dates only matter through day count and origin',
  'A curve over dates has at a date the same value as the plain curve over the year fractions from its origin (first point unless given explicitly), whichever way the same dates are expressed (date, datetime, BusinessDate or, with matching year fractions, numbers), and casting it to a plain curve gives exactly that. '
  'The default year fraction is days/365.25 for dates and the plain difference for numbers, so it is additive and antisymmetric; a supplied day count is used instead wherever given, and fixings override the curve at their date only. '
  'Integrating over a period gives the time average of the curve over that period and the derivative is the difference quotient over the elementary time step.',
  ['inputs', 'configurations'],
  'curves with 1-6 points over ten years, day counts act/365.25, act/365, act/360, 30/360, month-end and leap-year dates, arbitrary periods',
  'tests use one date type at a time (BusinessDate mostly) and never compare the kinds with each other',
  [CV, 'dcf/daycount.py'], [('day_count duck typing', 'dcf/daycount.py: day_count'),
                            ('origin default', CV + ': DateCurve.origin'),
                            ('integrate/derivative', CV + ': DateCurve')],
  ['day_count(s, e)', 'DateCurve(...)(d)', 'Curve(DateCurve)', 'integrate', 'derivative'])

p('P05', 'Curves can be rebuilt from their own arguments',
  'For every curve type the constructor arguments a curve reports, given back to the type, build a curve with the same points, origin and values everywhere, also by name of interpolation and day count. '
  'This holds after points were added, and does not depend on a spread or fixing set at the time. '
  'A curve constructed from another curve of the same type has its points and its values there, too, and with default settings (a price curve up to its last point) its values everywhere.',
  ['inputs', 'configurations'],
  'all public curve classes (plain, date, forward, fx forward, interest rate, credit and volatility curves) with random points, explicit or implicit origin, interpolations and day counts which are known by name, forward tenor and yield resp. discount curves',
  'tests never rebuild a curve from its arguments (except printing it)',
  [CV, IR, CC, VC, FX], [('kwargs from constructor signature', CV + ': Curve.kwargs'),
                         ('overrides', CC + ': DefaultProbabilityCurve.kwargs')],
  ['curve.kwargs', 'type(curve)(**curve.kwargs)', 'type(curve)(curve)'])

p('P06', 'Compounding and rate functions are inverse to each other',
  'For each compounding convention (simple, continuous, periodic m times a year, and the annual, semi-annual, quarterly, monthly and daily special cases) the discount factor of the rate implied by a discount factor is that discount factor again, and vice versa. '
  'Discount factors are 1 for zero rate or zero maturity, decrease strictly in the rate and (for positive rates) in maturity, and agree with the convention formula. '
  'Periodic compounding lies between simple-per-period growth and continuous compounding and tends to it as the frequency grows.',
  ['inputs'],
  'rates in (-20%, 50%), maturities up to 50 years, 1 to 365 periods per year',
  'tests check a handful of rates and maturities',
  ['dcf/compounding.py'], [('formulas', 'dcf/compounding.py')],
  ['simple_compounding', 'simple_rate', 'continuous_compounding', 'continuous_rate', 'periodic_compounding', 'periodic_rate'])

p('P07', 'Interest rate curves: discount, zero, short, cash rate and annuity agree',
  'On any interest rate curve discount factor, zero rate and cash rate of the same period describe the same growth: df = exp(-zero * t), cash = (1/df - 1)/t, a single date means the period from the origin, and the stored quantity is returned at the points of the curve. '
  'Discount factors are 1 over an empty period and chain over adjacent periods (for discount factor and zero rate curves always, for short rate curves over ordered dates, for cash rate curves along whole tenor steps); the short rate between two points is the zero rate of that interval, resp. what the short rate curve interpolates. '
  'The swap annuity of a schedule is the sum of accrual year fraction times discount factor to the period end.',
  ['inputs', 'configurations'],
  'all four interest rate curve types, random points, rates from -5% to 15%, forward tenors, day counts, arbitrary pairs and triples of dates before, at, between and after the curve points',
  'tests use one term structure with yearly points and check at those points with few decimals; get_swap_annuity is not tested against values',
  [IR, CV], [('compounding factor/rate primitives', CV + ': RateCurve._get_compounding_factor'),
             ('storage specific overrides', IR)],
  ['get_discount_factor', 'get_zero_rate', 'get_short_rate', 'get_cash_rate', 'get_swap_annuity'])

p('P08', 'Casting interest rate curves preserves the term structure',
  'Casting an interest rate curve to another storage type on a given grid preserves what that type stores at each point of the grid (discount factors and zero rates from origin, cash rates for the tenor of the curve, short rates at the point), and origin and day count unless given explicitly. '
  'Hence casting between discount factor and zero rate curves preserves discount factors at all points of the grid, and casting there and back on the points of the curve gives the same values there (a rate at origin excepted). '
  'The curve which is cast is not changed, and the points of the original curve are kept if no grid is given.',
  ['inputs', 'configurations'],
  'all ordered pairs of interest rate curve types, points of all date kinds with explicit grid, BusinessDate points without, origins different from the first point, explicit day counts',
  'tests cast a single BusinessDate curve whose origin is its first point and with default day count',
  [IR, CV], [('storage value of other curve', IR + ': _get_storage_value'),
             ('properties taken over', CV + ': RateCurve.__init__'),
             ('extra points', IR + ': DiscountFactorCurve, CashRateCurve')],
  ['Target(source)', 'Target(grid, source)'])

p('P09', 'Credit curves: survival probability, intensity and hazard rate agree',
  'On any credit curve survival probability and flat intensity of the same period satisfy sv = exp(-intensity * t), a single date means the period from the origin, survival over an empty period is 1 and the stored quantity is returned at the points of the curve, default probability curves being the complement of what they are given. '
  'Survival probabilities chain over adjacent periods (for survival, default and intensity curves always, for hazard rate curves over ordered dates, for marginal curves along whole tenor steps) and lie in (0, 1] for consistent data; the hazard rate between two points is the flat intensity of that interval, resp. what the hazard rate curve interpolates. '
  'Probabilities outside of (0, 1) are moved to the closest admissible value.',
  ['inputs', 'configurations'],
  'all six credit curve types, random points and probabilities incl. 0 and 1, tenors, day counts and dates',
  'tests use one fixed curve with yearly points',
  [CC, CV], [('compounding primitives', CV + ': RateCurve'), ('storage overrides', CC)],
  ['get_survival_prob', 'get_flat_intensity', 'get_hazard_rate'])

p('P10', 'Casting credit curves preserves survival probabilities',
  'Casting a credit curve to another storage type on a given grid preserves what that type stores at each point of the grid (survival resp. default probability and intensity from origin, marginal probabilities for the tenor of the curve, hazard rates at the point) as well as origin and day count unless given explicitly. '
  'Hence survival probabilities agree at all points of the grid when casting between survival, default and intensity curves, and casting there and back gives the same values there (an intensity at origin excepted). '
  'The curve which is cast is not changed.',
  ['inputs', 'configurations'],
  'all ordered pairs of credit curve types, date kinds, explicit grids and origins',
  'tests cast one BusinessDate curve with few decimals',
  [CC, CV], [('storage value of other curve', CC + ': _get_storage_value'),
             ('clamping', CC + ': ProbabilityCurve.__init__')],
  ['Target(source)', 'Target(grid, source)'])

p('P11', 'Volatility curves: total variance is consistent over time',
  'A terminal volatility curve returns its interpolated values from origin, and forward volatilities such that total variance (squared volatility times time) is additive over adjacent periods; where total variance would decrease it raises, or returns the floor if one is set; a period that ends before it starts has zero volatility. '
  'An instantaneous volatility curve returns its interpolated values and as terminal volatility their time average over the period. '
  'Casting between the two keeps origin and day count and the stored quantity at the points of the new curve.',
  ['inputs', 'configurations'],
  'random volatility term structures with increasing, decreasing and flat total variance, all dates in and out of the curve, floors None, 0 and positive',
  'tests compare flat curves, and others with one or two decimals only',
  [VC], [('variance difference', VC + ': TerminalVolatilityCurve.get_terminal_vol'),
         ('FLOOR', VC), ('integrate', CV + ': DateCurve.integrate')],
  ['get_terminal_vol', 'get_instantaneous_vol'])

p('P12', 'Forward price curves interpolate prices and extrapolate by yield',
  'A forward price curve returns the given prices at its points, interpolates log-linearly (by default) up to the last point and beyond it grows the last price by the inverse of the discount factor of its yield, given as continuous rate, as discount function or as interest rate curve; without yield it stays flat. '
  'A fx forward curve grows beyond its last point by domestic over foreign discount factor. '
  'A price object or a single number gives the curve of that spot price, the curve is continuous at its last point and calls with lists work elementwise.',
  ['inputs', 'configurations'],
  'random price curves of all date kinds, yields of each form, discount curves with other points than the price curve, dates before, at and after the last point',
  'tests use one or two spot prices with flat yields',
  [CV, FX], [('extrapolation', CV + ': ForwardCurve.get_forward_price'),
             ('fx extrapolation', FX + ': FxForwardCurve.get_forward_price'),
             ('Price', CV + ': Price')], ['curve(d)', 'get_forward_price(d)', 'float(price)'])

p('P13', 'Fx container rates are arbitrage free after any history',
  'After any sequence of adding and re-adding currencies to a container, for every pair and every triple of different currencies and any date the forward rate of a pair is the reciprocal of the one of the swapped pair, the rate of the base currency to itself is 1, and rates multiply along a triangle of currencies. '
  'Each pair against the base currency has at the origin the spot rate added last and beyond it is driven by the discount curves added last; the container holds exactly all pairs of different currencies (and the base currency with itself), and asking for a single currency lists all its pairs. '
  'An addition which is refused changes nothing. A pair set on its own is that very curve, changes no other pair, and cross rates of currencies added later start from its value at the origin of the container.',
  ['histories', 'inputs'],
  'histories of up to 8 (rarely 25) additions over up to 5 currencies with changing spots and curves, in any order, by either way of adding',
  'no test of the container exists',
  [FX], [('triangulation over base currency', FX + ': FxContainer.add')],
  ['container[d, f]', 'container[d]', 'get_forward_price'],
  [('pairs', 'all ordered pairs of known currencies', FX)])

p('P14', 'Payment plans pay back the total amount',
  'Every payment plan has the requested number of payments: equal amounts, a single final amount, equal shares, annuity or consumer loan; all but the equal-amount and consumer plan sum up to the given amount, and the consumer plan to amount plus simple interest over all periods. '
  'In an annuity plan redemption plus interest on the outstanding amount is constant over time, also for zero and negative rates. '
  'The outstanding amounts are the initial amount minus (or plus) all payments before, and vanish after the last payment of a full plan.',
  ['inputs'],
  'numbers of payments 1 to 120, amounts of any sign and size, rates -5% to 30%',
  'tests use one plan each', ['dcf/plans.py'], [('plan formulas', 'dcf/plans.py')],
  ['same', 'bullet', 'amortize', 'annuity', 'consumer', 'outstanding'])

p('P15', 'Fixed and rate cashflows pay what their terms say',
  'A cashflow list works as a read-only map of payment dates with zero for any other date; a rate cashflow pays notional times accrual year fraction times fixed plus forward rate, with periods from one payment date to the next, shifted back by the pay offset, the first one starting at the origin as it is (one step before the first payment, shifted, too, if no origin is given), and the forward rate taken at period start minus fixing offset. '
  'A list of legs pays at each date of any leg the sum of the legs and starts with the earliest of them; evaluating a list by calling it gives the same cashflows as fixed amounts, as does the table, row by row. '
  'Setting the fixed rate or forward curve afterwards is the same as constructing with it. Changing the terms of one payment changes no other one. A list without payments, of whatever type, pays nothing.',
  ['inputs', 'configurations'],
  'lists of no and of 1 to 8 payments of all date kinds, day counts, offsets, notional plans, fixed rates, and forward estimators given as number, function or any interest rate curve',
  'tests check single products with default day count, no offsets and constant notional',
  [CF, PO], [('period start dates', CF + ': RateCashFlowList.__init__'),
             ('cashflow formula', PO + ': RateCashFlowPayOff.details'),
             ('leg sum', CF + ': CashFlowLegList')],
  ['cfs[d]', 'cfs[cfs.domain]', 'cfs()', 'cfs.table', 'cfs.fixed_rate'])

p('P16', 'Contingent cashflows equal the model value of what they replicate',
  'A contingent cashflow list pays at each date its number or its payoff evaluated with the current model, so replacing the model re-values all payoffs; without payoffs it pays nothing. '
  'An option cashflow is notional times call or put value at expiry (payment date minus pay offset minus fixing offset), a strategy the sum of its options, and a collared rate cashflow the plain rate cashflow plus floorlet minus caplet on notional times accrual period; with an intrinsic model this is the collared rate itself. '
  'The table shows the very cashflows with terms and model parameters.',
  ['inputs', 'configurations'],
  'lists of payments of all date kinds, strikes around the forward, puts and calls, notionals of any sign, day counts, offsets, caps and floors present or not, all models',
  'tests hold reference numbers for one set of terms that are compared with themselves only, offsets are not covered',
  [CO, PO, OP], [('payoff evaluation', PO), ('offset and period logic', CO)],
  ['cfs[d]', 'cfs.payoff_model', 'cfs.table', 'payoff(model)'])

p('P17', 'Option model prices are the expectation of the payoff',
  'Call values of the normal, log-normal, displaced log-normal and intrinsic models equal the expectation of the positive part of forward minus strike under the respective distribution, puts follow by put-call parity, and without strike both are at the money. '
  'Hence values stay between intrinsic value and their upper bound, decrease (call) resp. increase (put) and are convex in strike, increase in volatility and time, and tend to the intrinsic value which is returned for zero volatility and at or after expiry. '
  'Forward, volatility and year fraction may come from numbers, functions or curves, and the day count is that of the model, else of its volatility or forward curve.',
  ['inputs', 'configurations'],
  'forwards, strikes, volatilities, times over several orders of magnitude in and out of the money, negative values for normal and displaced models, parameter sources of each kind',
  'the reference-number tests do not notice changed prices and doc examples cover one log-normal option',
  [OP, 'dcf/models/bachelier.py', 'dcf/models/black76.py', 'dcf/models/displaced.py', 'dcf/models/intrinsic.py', 'dcf/models/distibutions.py'],
  [('closed formulas', 'dcf/models'), ('parity and limits', OP + ': get_call_value, get_put_value'),
   ('parameter lookup', OP + ': details')], ['get_call_value', 'get_put_value', 'details'])

p('P18', 'Greeks are the derivatives of the model price',
  'For every vanilla model delta, gamma and vega are the first and second derivative along the forward and the first along volatility of the call value, theta the change for a longer time to expiry, each scaled as documented, no matter whether derived by formula or numerically. '
  'Greeks of puts are those which follow from put-call parity. '
  'With zero volatility and at or after expiry they are those of the intrinsic value.',
  ['inputs', 'configurations'],
  'as for prices; numerical and analytical greeks, changed shift and scale of a model',
  'tests only compare greeks for zero volatility; the reference-number tests do not notice changes',
  [OP, 'dcf/models'], [('analytic greeks', 'dcf/models: _call_delta, _call_gamma, _call_vega'),
                       ('bump and scale', OP + ': get_call_delta .. get_put_theta')],
  ['get_call_delta', 'get_call_gamma', 'get_call_vega', 'get_call_theta', 'get_put_*'])

p('P19', 'Binary options: probability to end in the money',
  'Values of binary calls are the model probability of ending above the strike, so they agree with a tight call spread of the vanilla model (also when built from any pricing formula by finite difference), lie in [0, 1], decrease in strike and are 0 or 1 for zero volatility and at or after expiry. '
  'Binary call and put add up to 1. '
  'Their greeks are the derivatives of the value, those of put and call adding up to zero.',
  ['inputs', 'configurations'],
  'as for prices with normal, log-normal, displaced, intrinsic binary models, and call spread models of any vanilla model or function and strike shift',
  'the tests that would compare binary models are disabled',
  [OP, 'dcf/models'], [('binary formulas', 'dcf/models'), ('call spread', OP + ': BinaryOptionPayOffModel')],
  ['get_call_value', 'get_put_value', 'get_*_delta/gamma/vega/theta'])

p('P20', 'Present value is the sum of discounted cashflows',
  'The present value of a cashflow list is the sum of all cashflows at or after the valuation date, each times the discount factor from its payment date to the valuation date (origin of the curve by default). '
  'It is therefore additive over legs and over splitting payments, linear in amounts, and independent of any cashflow before the valuation date. '
  'Contingent cashflows are valued as of the valuation date, not as of the date of their model.',
  ['inputs', 'configurations'],
  'all cashflow list types (fixed, rate, contingent, legs), all interest rate curve types and date kinds, valuation dates before, at, between and after payments',
  'tests value three products on one flat curve at the first date',
  [PX], [('date filter, discounting', PX + ': get_present_value')], ['get_present_value'])

p('P21', 'Yield-to-maturity and fair rate reproduce the price',
  'Discounting at the yield-to-maturity (continuously compounded, flat) gives back the present value it was derived from, and a rate leg paying the fair rate is worth the given value, up to the precision asked for; so a yield found from the price under a flat curve is the rate of that curve. '
  'This holds for each valuation date, notional size and sign and day count for which the solution is inside of the bounds. '
  'If it is outside, an exception is raised.',
  ['inputs', 'configurations'],
  'bonds and rate legs with 1 to 8 payments, notionals 1 to 1e9 of either sign, bounds, precisions and valuation dates',
  'tests and examples use one bond at one valuation date',
  [PX], [('nested intervals', PX + ': _simple_bracketing'), ('target function', PX + ': get_yield_to_maturity, get_fair_rate')],
  ['get_yield_to_maturity', 'get_fair_rate'])

p('P22', 'Accrued interest is the elapsed share of the current coupon',
  'Accrued interest at a date strictly inside an interest period is the coupon of that period times the elapsed share of its year fraction; inside of no period it is zero, hence it never exceeds the coupon. '
  'It is linear in elapsed year fraction, additive over legs, ignores fixed cashflows and takes float rates and optional caps and floors as forecast by the list. ',
  ['inputs', 'configurations'],
  'rate and contingent rate lists and legs of all date kinds, day counts, pay offsets, fixed and float rates; valuation dates before, inside, between and after the periods (not on the end of a period)',
  'three dates of one fixed rate bond are tested',
  [PX], [('period lookup', PX + ': get_interest_accrued')], ['get_interest_accrued'])

p('P23', 'Basis point value and buckets are value changes of shifted curves',
  'The basis point value is the change of present value when the rates of the chosen curve (discount curve by default) are shifted in parallel, rescaled from shift size to one basis point. '
  'The bucketed values use the documented partition of that shift over the grid (points of the chosen curve by default), hence equal the value change for each triangle and sum up to the basis point value as the shift gets small. '
  'For a list of curves all are shifted at once.',
  ['inputs', 'configurations'],
  'fixed, floating and leg lists, zero, short, cash curves of all date kinds as discount and forward curve, grids of 1 to 6 points, shifts of either sign, valuation dates',
  'tests compare one bond on one curve and the reference-number tests do not notice changes',
  [PX], [('spread on curves', PX + ': get_basis_point_value, get_bucketed_delta'),
         ('spread', CV + ': RateCurve.__call__')], ['get_basis_point_value', 'get_bucketed_delta'])

p('P24', 'Curve fit reprices its instruments',
  'A curve built from the fitted values on the fitting grid (points of the fitting curve by default, values in the order of the grid) gives each product the price it was fitted to, one product maturing per grid point, up to the precision asked for. '
  'So fitting prices which were calculated on a known curve gives back the values of that curve at the grid. '
  'This holds if the fitted curve is the discount curve, a forward curve or a volatility curve.',
  ['inputs', 'configurations'],
  'curves with 1 to 5 grid points, fixed leg, float leg and option products, arbitrary true and start values within bounds, different date kinds',
  'two examples exist, one term structure each',
  [PX], [('sequential bracketing on spread', PX + ': get_curve_fit')], ['get_curve_fit'])

p('P25', 'Pricing never changes its arguments',
  'Calling any pricing function (present value, yield, fair rate, accrued interest, basis point value, buckets, curve fit), in any order and number and whether it returns or raises, leaves cashflow lists, curves and models as they were: same cashflows, fixed rate, curve points, values, spread and valuation date of the model. '
  'Hence repeating a call gives the same result. ',
  ['histories', 'inputs', 'fault_sequences'],
  'sequences of up to 6 pricing calls on shared legs, curves and models, some of which are made to fail by unreachable bounds, by curves raising at some date, or by curves that already carry a spread',
  'no test looks at arguments after a call',
  [PX], [('store and restore of fixed rate, spread and valuation date', PX)],
  ['arguments before and after the call'],
  [('spread', 'temporary bump of a curve', CV), ('fixed_rate', 'temporary coupon', CF),
   ('valuation_date', 'temporary model date', OP)])

p('P26', 'Bonds and swaps build the agreed schedule and cashflows',
  'Interest is paid at end date and backwards at multiples of the period as long as later than the start, adjusted by business day convention; accrual periods join without gap from start date to last interest date. '
  'A bond pays out its notional at start, pays it back at the end (or along its plan, interest accruing on the remaining notional), and interest at the fixed plus forward rate; a swap pays one leg and receives the other on the same notional. '
  'All this holds for numbers, dates and BusinessDates, end dates given as tenor and default arguments.',
  ['inputs', 'configurations'],
  'start dates incl. month end and leap years, maturities up to 15 years, periods which do and do not divide maturity, conventions and holidays, notional numbers and plans',
  'one bond is built in the reference-number tests, swaps never',
  [PR], [('schedule', PR + ': _interest_payment_dates'), ('legs', PR + ': bond, interest_rate_swap')],
  ['bond(...)', 'interest_rate_swap(...)', 'legs'])

p('P27', 'Rating classes: any probability is a mixture of master scale classes',
  'For any master scale (given as dict, generated from names or a mapping) and any probability inside of it the vector of a rating class has one non-negative weight per class, summing up to 1, on at most two adjacent classes and mixing their probabilities to the given one. '
  'A class of the master scale itself gets its unit vector and its name; a probability outside of the scale is rejected, unless sloppy handling is switched on. '
  'Generated scales increase geometrically to 1 with the order of names, and listing a scale is sorted by probability.',
  ['inputs', 'configurations'],
  'master scales of 2 to 28 classes with random increasing probabilities, probabilities at, between and outside of the classes',
  'tests use the three built-in scales',
  ['dcf/ratingclass.py'], [('bracketing and mixing', 'dcf/ratingclass.py: RatingClass.__iter__'),
                           ('scale generation', 'dcf/ratingclass.py: master_scale.fromkeys')],
  ['RatingClass(value, masterscale)', 'list(rating)', 'str(rating)', 'float(rating)'])

p('P28', 'Rate tables show the curve values on their grid',
  'Each row of a rate table shows for its date the curve values at that date plus each period of the header, for all those periods that end before the date of the next row (all periods in the last row). '
  'By default rows are the origin and all points of the curve and the header contains the zero period and the multiples of the grid steps fitting into the gaps, in increasing order without repetition. '
  'The table property of a curve is the table of its defaults.',
  ['inputs', 'configurations'],
  'plain, date and rate curves of all date kinds with 1 to 6 points, explicit and default grids',
  'one example exists',
  [CV], [('grid defaults and cut off', CV + ': rate_table')], ['rate_table', 'curve.table'])

p('P29', 'Results follow the current state of all objects involved',
  'After any history of updates and queries, every result equals the result of objects newly built in the same final state: no query leaves a trace and no update is missed. '
  'Updates are new or changed points, fixings and spreads of curves (spreads exchanged or changed in place, yield curves of forward curves changed), fixed rates, forward curves and payoff models of cashflow lists, and valuation date, forward curve, volatility, day count and bump setting of payoff models. '
  'Results are curve values, factors and rates of points and periods, casts, expected cashflows, cashflow tables, present values, accrued interest, sensitivities, option prices and greeks. '
  'Exchange rates of an fx container follow its curves in the same way, and adding a currency again replaces its spot and curve in all its pairs.',
  ['histories', 'configurations'],
  'histories of up to 13 updates and queries on curves of all kinds and dates, on networks of 2 to 3 curves, 2 models and up to 4 cashflow lists, and on fx containers of up to 4 currencies',
  'tests build an object, query it and drop it; few update at all, none after a query',
  [CV, OP, PR, 'dcf/cashflows/cashflow.py', 'dcf/curves/fx.py'],
  [('updates of points', CV + ': Price/Curve.__setitem__, DateCurve.__call__'), ('spread and forward curve links', 'dcf/curves/interestratecurve.py, dcf/curves/fx.py'),
   ('lazy evaluation of payoffs', 'dcf/cashflows/cashflow.py, dcf/cashflows/payoffs.py')],
  ['curve[d] = y, curve.fixings, curve.spread', 'cashflow_list.fixed_rate, .forward_curve, .payoff_model', 'model attributes', 'FxContainer.add', 'all queries'])

for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                    'properties.jsonl')
with open(path, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
