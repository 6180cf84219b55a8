"""What the commands use around the rest: miette reports (opaque), progress bars (no-ops), random encouragement."""
from mcore import *
from masync import pollany


def report(*a):
    return PyObj('report', a)


@m('<core::result::Result<T, E> as miette::eyreish::into_diagnostic::IntoDiagnostic<T, E>>::into_diagnostic')
def _(fn, r):
    return r if r.v == 0 else err(report(r.f[0]))


m('miette::eyreish::error::<impl core::convert::From<E> for miette::eyreish::Report>::from')(lambda fn, e: report(e))
m('miette::eyreish::error::<impl miette::eyreish::Report>::msg', 'miette::eyreish::error::<impl miette::eyreish::Report>::new')(lambda fn, e: report(e))

T = '<tracing::span::Span as tracing_indicatif::span_ext::IndicatifSpanExt>::'
m(*[T + x for x in ('pb_inc', 'pb_inc_length', 'pb_set_length', 'pb_set_message', 'pb_set_style')])(lambda fn, *a: unit())
m('indicatif::style::ProgressStyle::default_bar')(lambda fn: OPAQUE)
m('indicatif::style::ProgressStyle::template')(lambda fn, *a: ok(OPAQUE))
m('tracing::__macro_support::__disabled_span', 'tracing::span::Span::enter', 'tracing::span::Span::new', '<tracing::span::Span as core::clone::Clone>::clone')(lambda fn, *a: OPAQUE)
m('rand::rngs::thread::thread_rng')(lambda fn: OPAQUE)


@m('rand::seq::IteratorRandom::choose')
def _(fn, it, rng):
    return some(SliceRef(list(b'x'), 0, 1))


m('miette::miette_diagnostic::MietteDiagnostic::new')(lambda fn, x: OPAQUE)
m('<alloc::boxed::Box<T, A> as core::ops::drop::Drop>::drop')(lambda fn, r: unit())
m('tracing_core::subscriber::Interest::never', 'tracing_core::callsite::DefaultCallsite::interest')(lambda fn, *a: OPAQUE)
m('tracing_core::subscriber::Interest::is_never')(lambda fn, *a: True)
m('tracing::__macro_support::__is_enabled')(lambda fn, *a: False)
m('<tracing_core::callsite::DefaultCallsite as tracing_core::callsite::Callsite>::metadata')(lambda fn, *a: OPAQUE)
m('tracing_core::metadata::Metadata::<\'a>::fields', 'tracing_core::field::FieldSet::value_set', 'tracing_core::field::FieldSet::iter')(lambda fn, *a: OPAQUE)
m('tracing::instrument::Instrument::instrument')(lambda fn, f, s: f)


@m('<tracing::instrument::Instrumented<T> as core::future::future::Future>::poll', needs=[('poll', 0)])
def _(fn, p, cx):
    return pollany(fn['ga'][0], p, cx)
