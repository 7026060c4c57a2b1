fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    wasmbind::vserver::serve();
}
