#![allow(dead_code, unused)]
use wot_td::builder::*;
use wot_td::extend::*;
use wot_td::thing::*;
use wot_td::hlist::*;
pub type R<O> = Result<Thing<O>, Error>;

pub trait Ext:
    ExtendableThing<
        Form: Extendable<Empty = <Self as ExtendableThing>::Form>,
        DataSchema: Extendable<Empty = <Self as ExtendableThing>::DataSchema>,
        InteractionAffordance: Extendable<Empty = <Self as ExtendableThing>::InteractionAffordance>,
        PropertyAffordance: Extendable<Empty = <Self as ExtendableThing>::PropertyAffordance>,
        ActionAffordance: Extendable<Empty = <Self as ExtendableThing>::ActionAffordance>,
        EventAffordance: Extendable<Empty = <Self as ExtendableThing>::EventAffordance>,
        ExpectedResponse: Extendable<Empty = <Self as ExtendableThing>::ExpectedResponse>,
        ArraySchema: Extendable<Empty = <Self as ExtendableThing>::ArraySchema> + Default,
        ObjectSchema: Extendable<Empty = <Self as ExtendableThing>::ObjectSchema> + Default,
    > + Sized
{
}
pub fn thing_base<O: Ext>(b: ThingBuilder<O, Extended>) -> R<O> { b.build() }
