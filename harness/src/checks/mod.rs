pub mod calendars;
pub mod dates;
pub mod imms;
pub mod periods;
pub mod schedules;
pub mod daycounts;
pub mod bonds;
pub mod legs;
pub mod rates;
pub mod maths;
pub mod misc;
pub mod wholes;
pub mod crossing;
pub mod families;
pub mod refusals;
pub mod changes;
pub mod together;
